INIT Init
NEXT Next
CONSTANT Bug = "none"
CONSTANT NN = 3
CONSTANT MM = 2
CONSTANT Top = 2
INVARIANT Faithful
INVARIANT Injective
INVARIANT Depends
INVARIANT Untouched
