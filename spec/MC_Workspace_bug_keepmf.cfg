INIT Init
NEXT Next
CONSTANT Bug = "keepmf"
INVARIANT Fresh
INVARIANT Attributes
VIEW View
