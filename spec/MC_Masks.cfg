CONSTANTS
  Ns = {7, 12, 16, 21, 30, 41, 56}
  Ls = {2, 3, 4, 6, 10}
  GapLens = {1, 2, 5}
  Bug = "none"
INIT Init
NEXT Next
INVARIANTS TypeOK Sound Complete Contiguous Ends Halves LevelRule Border MaxLevelLaw
