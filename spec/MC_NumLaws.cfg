CONSTANTS
  Grid = {"-3.7", "0.0", "1.0E-6", "0.5", "2.0", "123456.75", "-0.125", "3.0"}
  Pos = {"1.0E-6", "0.5", "2.0", "123456.75", "3.0"}
  MaxLen = 3
INIT Init
NEXT Next
INVARIANTS Field Order Transcend Trig Missing Overrides
