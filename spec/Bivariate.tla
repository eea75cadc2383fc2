------------------------------ MODULE Bivariate ------------------------------
(***************************************************************************)
(* Estimators of two multiresolution quantities observed at the same       *)
(* positions: at each scale two sequences a, b of the same length whose    *)
(* entries are missing together.                                           *)
(***************************************************************************)
EXTENDS Stats

\* the pairs valid in both, as two sequences
PairValid(a, b) ==
    LET ok == SelectSeq([i \in 1..Len(a) |-> i], LAMBDA i : ~IsNaN(a[i]) /\ ~IsNaN(b[i]))
    IN <<[i \in 1..Len(ok) |-> a[ok[i]]], [i \in 1..Len(ok) |-> b[ok[i]]]>>

BiS(a, b, q1, q2) == Mean(NMulSeq(NPowSeq(NAbsSeq(a), q1), NPowSeq(NAbsSeq(b), q2)))
Coherence(a, b) == NDiv(Mean(NMulSeq(a, b)), NSqrt(NMul(Mean(NMulSeq(a, a)), Mean(NMulSeq(b, b)))))

LnMag(a) == NLnSeq(NAbsSeq(a))
CoCumulant(a, b) ==
    LET x == LnMag(a)  y == LnMag(b)
    IN Mean(NMulSeq(NShiftSeq(x, NNeg(Mean(x))), NShiftSeq(y, NNeg(Mean(y)))))
\* C_{m1 m2} for the orders the library defines; the others are 0
BiC(Ka, Kb, co, m1, m2) ==
    IF m1 = 0 /\ m2 = 0 THEN "0.0"
    ELSE IF m2 = 0 THEN Ka[m1]
    ELSE IF m1 = 0 THEN Kb[m2]
    ELSE IF m1 = 1 /\ m2 = 1 THEN co
    ELSE "0.0"

\* the bivariate spectrum at (h1, h2)
LTerm(c, h1, h2) ==
    LET b == NSub(NMul(c.c20, c.c02), NSq(c.c11))
        d1 == NSub(h1, c.c10)  d2 == NSub(h2, c.c01)
        t1 == NMul(c.c02, NSq(d1))  t2 == NMul(c.c20, NSq(d2))  t3 == NMul(2, NMul(c.c11, NMul(d1, d2)))
        sum == NSub(NAdd(t1, t2), t3)
    IN [v |-> NAdd("1.0", NDiv(sum, NMul(2, b))),
        scale |-> NAdd("1.0", NAbs(NDiv(NAdd(NAbs(t1), NAdd(NAbs(t2), NAbs(t3))), b)))]
=============================================================================
