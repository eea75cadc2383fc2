----------------------------- MODULE MC_NumLaws -----------------------------
(***************************************************************************)
(* The laws of real arithmetic the specification relies on, checked by TLC *)
(* on the Java operators of Num (for every triple of numbers of the grid), *)
(* and the agreement of the fast sequence operators with their TLA+        *)
(* definitions.                                                            *)
(***************************************************************************)
EXTENDS Tensor
CONSTANT Grid, Pos, MaxLen
VARIABLES a, b, c, s
vars == <<a, b, c, s>>

Init == a \in Grid /\ b = "none" /\ c = "none" /\ s = <<>>
PickB == b = "none" /\ b' \in Grid /\ UNCHANGED <<a, c, s>>
PickC == b # "none" /\ c = "none" /\ c' \in Grid /\ UNCHANGED <<a, b, s>>
\* sequences, grown from a
Grow == c # "none" /\ Len(s) < MaxLen /\ (\E x \in {a, b, c, "NaN"} : s' = Append(s, x)) /\ UNCHANGED <<a, b, c>>
Next == PickB \/ PickC \/ Grow

Near(x, y) == NNearTol(x, y, NMag(<<a, b, c>>), "1.0E-13")
Two == b # "none"
Three == c # "none" /\ s = <<>>
Field == Three =>
    /\ NEq(NAdd(a, b), NAdd(b, a)) /\ NEq(NMul(a, b), NMul(b, a))
    /\ Near(NAdd(a, NAdd(b, c)), NAdd(NAdd(a, b), c))
    /\ NNearTol(NMul(a, NAdd(b, c)), NAdd(NMul(a, b), NMul(a, c)), NAdd(NAbs(NMul(a, b)), NAbs(NMul(a, c))), "1.0E-13")
    /\ NEq(NSub(a, a), 0) /\ NEq(NAdd(a, NNeg(a)), 0) /\ NEq(NMul(a, 1), a)
    /\ (~NEq(b, 0) => NNearTol(NMul(NDiv(a, b), b), a, "0.0", "1.0E-13"))
Order == Three =>
    /\ NLeq(a, b) \/ NLeq(b, a)
    /\ (NLeq(a, b) /\ NLeq(b, a)) = NEq(a, b)
    /\ NLt(a, b) = (NLeq(a, b) /\ ~NEq(a, b))
    /\ (NLeq(a, b) /\ NLeq(b, c) => NLeq(a, c))
    /\ (NLeq(a, b) => NLeq(NAdd(a, c), NAdd(b, c)))
    /\ (NLeq(a, b) /\ NLeq(0, c) => NLeq(NMul(a, c), NMul(b, c)))
    /\ NEq(NMax(a, b), IF NLeq(a, b) THEN b ELSE a) /\ NEq(NMin(a, b), IF NLeq(a, b) THEN a ELSE b)
    /\ NLeq(NAbs(NAdd(a, b)), NAdd(NAbs(a), NAbs(b)))
Transcend == (Three /\ a \in Pos /\ b \in Pos) =>
    /\ NNearTol(NLog2(NMul(a, b)), NAdd(NLog2(a), NLog2(b)), "1.0", "1.0E-13")
    /\ NNearTol(NPow(2, NLog2(a)), a, "0.0", "1.0E-13") /\ NNearTol(NExp(NLn(a)), a, "0.0", "1.0E-13")
    /\ NNearTol(NLn(a), NMul("0.6931471805599453", NLog2(a)), "1.0", "1.0E-13")
    /\ (NLeq(NAbs(c), 20) => /\ NNearTol(NPow(NMul(a, b), c), NMul(NPow(a, c), NPow(b, c)), "0.0", "1.0E-12")
                             /\ NNearTol(NPow(a, NNeg(c)), NDiv(1, NPow(a, c)), "0.0", "1.0E-12"))
    /\ NEq(NPow(a, 0), 1) /\ NEq(NPow(a, 1), a) /\ NNearTol(NSq(NSqrt(a)), a, "0.0", "1.0E-13")
    /\ (NLt(a, b) => NLt(NLog2(a), NLog2(b)))
Trig == Three => /\ NNearTol(NAdd(NSq(NCos(a)), NSq(NSin(a))), 1, "1.0", "1.0E-13")
                 /\ NNearTol(NCos(NAdd(a, b)), NSub(NMul(NCos(a), NCos(b)), NMul(NSin(a), NSin(b))), "1.0", "1.0E-7")
Missing == Two => /\ IsNaN(NAdd(a, "NaN")) /\ IsNaN(NMul("NaN", a)) /\ ~NLeq(a, "NaN") /\ ~NLt("NaN", a) /\ ~NEq("NaN", "NaN")
                  /\ ~IsNaN(a) /\ IsFinite(a) /\ ~IsFinite("NaN") /\ ~IsFinite(NDiv(1, 0)) /\ ~IsFinite(NDiv(-1, 0))

\* the TLA+ definitions of the operators that Num.java overrides
RECURSIVE DSum(_)
DSum(t) == IF t = <<>> THEN "0.0" ELSE NAdd(Head(t), DSum(Tail(t)))
RECURSIVE DDot(_, _)
DDot(t, u) == IF t = <<>> THEN "0.0" ELSE NAdd(NMul(Head(t), Head(u)), DDot(Tail(t), Tail(u)))
RECURSIVE DMax(_)
DMax(t) == IF Len(t) = 1 THEN Head(t) ELSE LET m == DMax(Tail(t)) IN IF NLeq(m, Head(t)) THEN Head(t) ELSE m
DValid(t) == SelectSeq(t, LAMBDA x : NNorm(x) # "NaN")
Same(t, u) == Len(t) = Len(u) /\ \A i \in 1..Len(t) : NEq(t[i], u[i]) \/ (NNorm(t[i]) = "NaN" /\ NNorm(u[i]) = "NaN")
Overrides == s # <<>> =>
    LET v == DValid(s)  m == IF v = <<>> THEN "0.0" ELSE DMax([i \in 1..Len(v) |-> IF NLeq("0.0", v[i]) THEN v[i] ELSE NSub("0.0", v[i])])
        tol == NMul("1.0E-13", NAdd(m, "1.0"))  rev == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
        vr == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
        n(x, y) == NEq(x, y) \/ (NLeq(NSub(x, y), NMul(tol, NAdd(m, 1))) /\ NLeq(NSub(y, x), NMul(tol, NAdd(m, 1))))
    IN
    /\ Same(NValid(s), v) /\ NEq(NMag(s), m)
    /\ n(NSum(v), DSum(v)) /\ n(NDot(v, vr), DDot(v, vr))
    /\ (v # <<>> => NEq(NMaxSeq(v), DMax(v)))
    /\ Same(NAbsSeq(s), [i \in 1..Len(s) |-> IF NNorm(s[i]) = "NaN" THEN "NaN" ELSE IF NLeq("0.0", s[i]) THEN s[i] ELSE NSub("0.0", s[i])])
    /\ Same(NPowSeq(v, 2), [i \in 1..Len(v) |-> NPow(v[i], 2)])
    /\ Same(NMulSeq(s, rev), [i \in 1..Len(s) |-> NMul(s[i], rev[i])])
    /\ Same(NScaleSeq(s, b), [i \in 1..Len(s) |-> NMul(s[i], b)])
    /\ Same(NShiftSeq(s, b), [i \in 1..Len(s) |-> NAdd(s[i], b)])
    /\ Same(NLog2Seq(NAbsSeq(v)), [i \in 1..Len(v) |-> NLog2(NAbs(v[i]))])
    /\ Same(NLnSeq(NAbsSeq(v)), [i \in 1..Len(v) |-> NLn(NAbs(v[i]))])
    /\ Same(NStride(s, 1, 2), [i \in 1..((Len(s) + 1) \div 2) |-> s[2 * i - 1]])
    /\ \A i \in 1..Len(v) : n(NCumSum(v)[i], DSum(SubSeq(v, 1, i)))
    /\ \A i \in 1..Len(s) : IsNaN(s[i]) = (NNorm(s[i]) = "NaN")
=============================================================================
