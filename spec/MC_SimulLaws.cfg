CONSTANTS
  Hs = {"0.1", "0.3", "0.5", "0.7", "0.95"}
  Ns = {4, 6, 11}
  Lams = {"0.1", "0.3"}
INIT Init
NEXT Next
INVARIANTS Fgn Psd LogVol At Skew Field Vol2
