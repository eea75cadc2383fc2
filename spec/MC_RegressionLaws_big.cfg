CONSTANTS
  Ys = {"-1.0", "0.0", "2.5", "4.0"}
  Ws = {1, 2, 7}
  Ns = {2, 3, 4}
  J1s = {1, 2, 4}
INIT Init
NEXT Next
INVARIANTS NormalEquations Minimal Linear Variance Lines Equivariant RangeOnly
