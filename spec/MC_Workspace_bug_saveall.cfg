INIT Init
NEXT Next
CONSTANT Bug = "saveall"
INVARIANT Fresh
INVARIANT Attributes
VIEW View
