INIT Init
NEXT Next
CONSTANT Bug = "inplace"
CONSTANT Depth = 5
INVARIANT Seen
