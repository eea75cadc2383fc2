CONSTANTS
  Vals = {"-2.0", "0.25", "1.0", "3.3"}
  Qs = {"-2.0", "-0.5", "0.0", "0.5", "1.0", "2.0", "4.0"}
  MaxLen = 6
  MaxM = 8
INIT Init
NEXT Next
INVARIANTS SLaws SpecLaws Legendre CumLaws Additive Generating Missing Sup
