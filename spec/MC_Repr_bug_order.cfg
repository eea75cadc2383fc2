INIT Init
NEXT Next
CONSTANT Bug = "order"
CONSTANT NN = 3
CONSTANT MM = 2
CONSTANT Top = 2
INVARIANT Depends
