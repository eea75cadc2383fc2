----------------------------- MODULE MC_Leaders -----------------------------
(***************************************************************************)
(* The recursion over dyadic sub-trees used by Cascade.tla (and by the     *)
(* implementation) computes what the definition says: the supremum (resp.  *)
(* weighted sum) over all reported coefficients of scales 1..j located in  *)
(* the three neighbouring dyadic intervals.  All missing patterns: a run   *)
(* of missing coefficients at scale 1, any subset at scales 2, 3.          *)
(***************************************************************************)
EXTENDS Wavelet, FiniteSets
CONSTANTS N1s, MaxRun, Bug
VARIABLES form, n1, coefs, tree
vars == <<form, n1, coefs, tree>>
P == "1.5"
Forms == {"wavelet leader", "wavelet p-leader"}
\* distinct magnitudes, alternating signs, not ordered in any direction
Val(j, k) == NMul(IF (j + k) % 2 = 0 THEN 1 ELSE -1, ((17 * k + 29 * j) % 41) + 1)
Seqn(j, n, miss) == [k \in 1..n |-> IF k \in miss THEN NaN ELSE Val(j, k)]
Runs(n) == {{}} \cup {a..b : a \in 1..n, b \in 1..n}
Init == form \in Forms /\ n1 \in N1s /\ coefs = <<>> /\ tree = <<>>
LenAt(j) == n1 \div (2^(j - 1))
TreeB(j, det, prev) == IF Bug = "child" /\ j > 1
    THEN TLCEval([k \in 1..Len(det) |-> Agg(form, <<Contribution(form, P, j, det[k]), prev[2 * k - 1]>>)])
    ELSE Tree(form, P, j, det, prev)
Step == /\ Len(coefs) < 3 /\ LenAt(Len(coefs) + 1) >= 2
        /\ LET j == Len(coefs) + 1 n == LenAt(j) IN
           \E miss \in {m \in (IF j = 1 THEN Runs(n) ELSE SUBSET (1..n)) : j > 1 \/ Cardinality(m) <= MaxRun} :
             \E det \in {Seqn(j, n, miss)} :
               /\ coefs' = Append(coefs, det)
               /\ tree' = TreeB(j, det, tree)
        /\ UNCHANGED <<form, n1>>
Next == Step

J == Len(coefs)
Lead == Neighbours(form, P, J, tree)
Members(k) == {im \in DirectSet(coefs, J, k) : ~IsNaN(coefs[im[1]][im[2]])}
RECURSIVE SumOver(_)
SumOver(S) == IF S = {} THEN "0.0" ELSE LET e == CHOOSE e \in S : TRUE
              IN NAdd(NMul(NPow(2, e[1]), NPow(NAbs(coefs[e[1]][e[2]]), P)), SumOver(S \ {e}))
RECURSIVE MaxOver(_)
MaxOver(S) == IF S = {} THEN "0.0" ELSE LET e == CHOOSE e \in S : TRUE IN NMax(NAbs(coefs[e[1]][e[2]]), MaxOver(S \ {e}))
DirectV(k) == IF Members(k) = {} THEN NaN
              ELSE IF form = "wavelet leader" THEN MaxOver(Members(k)) ELSE NPow(NDiv(SumOver(Members(k)), NPow(2, J)), NDiv(1, P))
Count == J > 0 => Len(Lead) = Len(coefs[J]) - 2
IsDefinition == J > 0 => \E ld \in {Lead} : \A k \in 1..Len(ld) : NNearTol(ld[k], DirectV(k), "0.0", "1.0E-12")
\* domination: no leader is below a coefficient of its three intervals
Dominates == (J > 0 /\ form = "wavelet leader") => \E ld \in {Lead} : \A k \in 1..Len(ld) : \A m \in k..(k + 2) :
    IsNaN(coefs[J][m]) \/ NLeq(NAbs(coefs[J][m]), ld[k])
\* every position of every scale is covered by some leader's intervals
Covered == (J > 0 /\ Len(coefs[J]) >= 3) => \A i \in 1..J : \A m \in 1..(Len(coefs[J]) * 2^(J - i)) :
    \E k \in 1..(Len(coefs[J]) - 2) : <<i, m>> \in DirectSet(coefs, J, k)
=============================================================================
