CONSTANTS
  Ns = {30}
  Ls = {2, 3, 4, 6, 10}
  GapLens = {1, 2, 5}
  Bug = "border"
INIT Init
NEXT Next
INVARIANTS TypeOK Sound Complete Contiguous Ends Halves LevelRule Border MaxLevelLaw
