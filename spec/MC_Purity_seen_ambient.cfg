INIT Init
NEXT Next
CONSTANT Bug = "ambient"
CONSTANT Depth = 5
INVARIANT Seen
