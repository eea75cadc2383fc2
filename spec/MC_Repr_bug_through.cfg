INIT Init
NEXT Next
CONSTANT Bug = "through"
CONSTANT NN = 3
CONSTANT MM = 2
CONSTANT Top = 2
INVARIANT Untouched
