CONSTANTS
  N1s = {6, 9, 12}
  MaxRun = 3
  Bug = "none"
INIT Init
NEXT Next
INVARIANTS Count IsDefinition Dominates Covered
