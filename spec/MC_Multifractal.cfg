CONSTANTS
  Vals = {"0.3", "-0.8", "1.1"}
  Qs = {"-1.5", "0.0", "0.5", "2.0"}
  MaxB = 2
  Top = 5
  MaxM = 4
INIT Init
NEXT Next
INVARIANTS Estimators Slopes Formalism Pairs PairSlopes Factors Realised
