CONSTANTS
  Vals = {"0.3", "-0.8", "1.1", "0.55"}
  Qs = {"-3.0", "-1.5", "-0.4", "0.0", "0.5", "1.0", "2.0", "4.0"}
  MaxB = 3
  Top = 5
  MaxM = 7
INIT Init
NEXT Next
INVARIANTS Estimators Slopes Formalism Pairs PairSlopes Factors Realised
