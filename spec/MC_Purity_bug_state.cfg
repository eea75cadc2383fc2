INIT Init
NEXT Next
CONSTANT Bug = "state"
CONSTANT Depth = 5
INVARIANT Same
