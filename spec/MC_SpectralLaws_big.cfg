CONSTANTS
  Vals = {"-1.0", "0.5", "2.0"}
  MaxLen = 8
  Nffts = {4, 5, 7, 8, 11}
  Fss = {"1.0", "100.0"}
INIT Init
NEXT Next
INVARIANTS Energy Window SegLaw Params Conv Recover
