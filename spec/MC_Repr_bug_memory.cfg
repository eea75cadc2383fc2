INIT Init
NEXT Next
CONSTANT Bug = "memory"
CONSTANT NN = 3
CONSTANT MM = 2
CONSTANT Top = 2
INVARIANT Depends
