CONSTANTS
  Ns = {13, 20, 27, 33}
  MaxRun = 2
  Wts = {1, 2}
INIT Init
NEXT Next
INVARIANTS Range Dominate PBounds NoPadding TrendFree Indep
