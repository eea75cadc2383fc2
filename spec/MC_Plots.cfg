CONSTANTS
  MaxEst = 3
  Scale1 = 2
  Scale2 = 4
INIT Init
NEXT Next
INVARIANT Discriminates
