INIT Init
NEXT Next
CONSTANT Bug = "none"
INVARIANT Fresh
INVARIANT Attributes
VIEW View
