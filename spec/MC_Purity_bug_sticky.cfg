INIT Init
NEXT Next
CONSTANT Bug = "sticky"
CONSTANT Depth = 5
INVARIANT Fresh
