CONSTANTS
  N1s = {6, 7, 9, 10, 12, 13}
  MaxRun = 5
  Bug = "none"
INIT Init
NEXT Next
INVARIANTS Count IsDefinition Dominates Covered
