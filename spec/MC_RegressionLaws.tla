-------------------------- MODULE MC_RegressionLaws --------------------------
(***************************************************************************)
(* Regression.tla gives the unique minimiser of the weighted sum of        *)
(* squares, and its variance: checked for every response in Ys^n and every *)
(* weight vector in Ws^n over the scales j1..j1+n-1.                       *)
(***************************************************************************)
EXTENDS Regression
CONSTANTS Ys, Ws, Ns, J1s
VARIABLES n, j1, w, y
vars == <<n, j1, w, y>>
Init == n \in Ns /\ j1 \in J1s /\ w = <<>> /\ y = <<>>
PickW == Len(w) < n /\ (\E v \in Ws : w' = Append(w, v)) /\ UNCHANGED <<n, j1, y>>
PickY == Len(w) = n /\ Len(y) < n /\ (\E v \in Ys : y' = Append(y, v)) /\ UNCHANGED <<n, j1, w>>
Next == PickW \/ PickY

Full == Len(y) = n
x == Scales(j1, j1 + n - 1)
A == Slope(x, y, w)
B == Intercept(x, y, w)
Res(a, b) == [i \in 1..n |-> NSub(y[i], NAdd(NMul(a, x[i]), b))]
SSE(a, b) == LET r == Res(a, b) IN NDot(w, NMulSeq(r, r))
near(u, v) == NNearTol(u, v, "100.0", "1.0E-12")
NormalEquations == Full => \E a \in {A}, b \in {B} : LET r == Res(a, b) IN
    near(NDot(w, r), 0) /\ near(NDot(NMulSeq(w, x), r), 0)
Minimal == Full => \E a \in {A}, b \in {B} : \A da, db \in {"-1.0", "-0.01", "0.0", "0.01", "1.0"} :
    NLeq(SSE(a, b), NAdd(SSE(NAdd(a, da), NAdd(b, db)), "1.0E-9"))
\* the slope is a linear function of y with weights the slopes of unit vectors
Unit(i) == [k \in 1..n |-> IF k = i THEN "1.0" ELSE "0.0"]
SW(i) == Slope(x, Unit(i), w)
Linear == Full => /\ near(A, NSum([i \in 1..n |-> NMul(SW(i), y[i])]))
                  /\ near(NSum([i \in 1..n |-> SW(i)]), 0)
                  /\ near(NSum([i \in 1..n |-> NMul(SW(i), x[i])]), 1)
Variance == Full => near(NSum([i \in 1..n |-> NDiv(NSq(SW(i)), w[i])]), SlopeVar(x, w))
\* exact on lines, equivariant under shifts and scaling
Lines == (Full /\ \A i \in 2..n : NEq(y[i], y[1])) => near(A, 0) /\ near(B, y[1])
Equivariant == Full =>
    /\ near(Slope(x, NShiftSeq(y, 7), w), A) /\ near(Intercept(x, NShiftSeq(y, 7), w), NAdd(B, 7))
    /\ near(Slope(x, NScaleSeq(y, -3), w), NMul(-3, A)) /\ near(Slope(x, y, NScaleSeq(w, 11)), A)
    /\ near(Slope(x, [i \in 1..n |-> NAdd(y[i], NMul(5, x[i]))], w), NAdd(A, 5))
    /\ near(Slope(NShiftSeq(x, 4), y, w), A) /\ near(Intercept(NShiftSeq(x, 4), y, w), NSub(B, NMul(4, A)))
    /\ near(ScaleSlope(<<9, 9, 9, 9, 9, 9>> , 2, 3, <<1, 2>>), 0)
\* a scale of enormous weight pins the line there; scales out of the range do not matter
RangeOnly == Full => near(ScaleSlope([i \in 1..(j1 + n + 1) |-> IF i < j1 \/ i >= j1 + n THEN "1.0E9" ELSE y[i - j1 + 1]], j1, j1 + n - 1, w), A)
=============================================================================
