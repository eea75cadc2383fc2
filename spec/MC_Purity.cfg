INIT Init
NEXT Next
CONSTANT Bug = "none"
CONSTANT Depth = 5
INVARIANT Kept
INVARIANT Unmutated
INVARIANT Same
INVARIANT Fresh
INVARIANT Seen
INVARIANT Settled
