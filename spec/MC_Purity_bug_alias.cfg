INIT Init
NEXT Next
CONSTANT Bug = "alias"
CONSTANT Depth = 5
INVARIANT Unmutated
