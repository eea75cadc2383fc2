CONSTANTS
  N1s = {9}
  MaxRun = 1
  Bug = "child"
INIT Init
NEXT Next
INVARIANTS Count IsDefinition Dominates Covered
