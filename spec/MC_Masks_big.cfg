CONSTANTS
  Ns = {7, 9, 12, 16, 19, 21, 25, 30, 34, 41, 48, 56, 63, 75}
  Ls = {2, 3, 4, 5, 6, 8, 10, 12}
  GapLens = {1, 2, 3, 5, 8}
  Bug = "none"
INIT Init
NEXT Next
INVARIANTS TypeOK Sound Complete Contiguous Ends Halves LevelRule Border MaxLevelLaw
