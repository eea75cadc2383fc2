CONSTANTS
  Vals = {"-2.0", "0.25", "1.0", "3.3"}
  Qs = {"-1.0", "0.0", "0.5", "2.0"}
  MaxLen = 4
  MaxM = 5
INIT Init
NEXT Next
INVARIANTS Structure Coh Cum Joint Legendre
