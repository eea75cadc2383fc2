CONSTANTS
  Hs = {"0.1", "0.3", "0.5", "0.7", "0.95"}
  Ns = {3, 4, 5, 6, 8, 11, 16, 24}
  Lams = {"0.1", "0.3"}
INIT Init
NEXT Next
INVARIANTS Fgn Psd LogVol Skew Field
