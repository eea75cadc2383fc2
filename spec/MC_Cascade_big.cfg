CONSTANTS
  Ns = {11, 13, 16, 20, 24, 27, 33, 40, 47}
  MaxRun = 4
  Wts = {1, 2}
INIT Init
NEXT Next
INVARIANTS Range Dominate PBounds NoPadding TrendFree Indep
