----------------------------- MODULE Regression -----------------------------
(***************************************************************************)
(* The weighted least-squares line: the (a, b) minimising                  *)
(*     sum_j w_j (y_j - a x_j - b)^2                                       *)
(* in centred form.  MC_RegressionLaws.tla checks with TLC, exhaustively   *)
(* on small integer data, that it solves the normal equations and that the *)
(* sum of the squared slope weights over w_j is 1/Sxx.                     *)
(***************************************************************************)
EXTENDS Tensor

WMean(w, y) == NDiv(NDot(w, y), NSum(w))
Centred(w, x) == NShiftSeq(x, NNeg(WMean(w, x)))
Sxx(x, w) == LET c == Centred(w, x) IN NDot(w, NMulSeq(c, c))
Slope(x, y, w) == NDiv(NDot(NMulSeq(w, Centred(w, x)), y), Sxx(x, w))
Intercept(x, y, w) == NSub(WMean(w, y), NMul(Slope(x, y, w), WMean(w, x)))
SlopeVar(x, w) == NDiv("1.0", Sxx(x, w))

Scales(j1, j2) == [i \in 1..(j2 - j1 + 1) |-> j1 + i - 1]
Ones(n) == [i \in 1..n |-> "1.0"]
\* regression of a per-scale quantity Y (indexed from scale 1) over j1..j2
ScaleSlope(Y, j1, j2, w) == Slope(Scales(j1, j2), SubSeq(Y, j1, j2), w)
ScaleIntercept(Y, j1, j2, w) == Intercept(Scales(j1, j2), SubSeq(Y, j1, j2), w)
=============================================================================
