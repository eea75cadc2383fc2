INIT Init
NEXT Next
CONSTANT Bug = "relabel"
INVARIANT Fresh
INVARIANT Attributes
VIEW View
