---------------------------- MODULE MC_StatsLaws ----------------------------
(***************************************************************************)
(* The identities behind properties C08-C13, checked on every sample of up *)
(* to MaxLen coefficients from Vals (with an optional missing entry).      *)
(* Two scales: the grown sample s and its image under a fixed map.         *)
(***************************************************************************)
EXTENDS Stats
CONSTANTS Vals, Qs, MaxLen, MaxM
VARIABLES s, t
Init == s = <<>> /\ t = <<>>
Next == \/ /\ Len(s) < MaxLen /\ t = <<>> /\ (\E v \in Vals : s' = Append(s, v)) /\ UNCHANGED t
        \/ /\ Len(s) >= 1 /\ t = <<>> /\ (\E v, w \in Vals : t' = <<v, w>>) /\ UNCHANGED s
one == s # <<>>
two == t # <<>>
near(a, b) == NNearTol(a, b, "1.0", "1.0E-10")
ln == NLnSeq(NAbsSeq(s))
\* --- structure functions
LogS(c, q) == NLog2(S(c, q))
SLaws == (one /\ ~two) => \A q \in Qs :
    /\ near(S(s, 0), 1)
    /\ near(LogS(NScaleSeq(s, "-4.0"), q), NAdd(LogS(s, q), NMul(2, q)))          \* amplitude: q log2|c|
    \* log-convexity in q: the scaling function is concave in the limit
    /\ \A q2 \in Qs : NLeq(LogS(s, NDiv(NAdd(q, q2), 2)), NAdd(NDiv(NAdd(LogS(s, q), LogS(s, q2)), 2), "1.0E-10"))
    \* monotone power means
    /\ \A q2 \in Qs : (NLt(0, q) /\ NLt(q, q2)) => NLeq(NDiv(LogS(s, q), q), NAdd(NDiv(LogS(s, q2), q2), "1.0E-10"))
    /\ (NLt(0, q) => NLeq(NDiv(LogS(s, q), q), NAdd(LogSup(s), "1.0E-10")))
\* --- spectrum: U = qV - log2 S, D = 1 + q h - zeta, D(0) = 1, h = zeta'
SpecLaws == (one /\ ~two) => \A q \in Qs :
    /\ near(UOf(s, q), NSub(NMul(q, VOf(s, q)), LogS(s, q)))
    /\ near(NSum(Escort(NAbsSeq(s), q)), 1)
    /\ near(UOf(s, 0), 0)
    /\ NLeq(UOf(s, q), NAdd(NLog2(Len(s)), "1.0E-10")) /\ NLeq("-1.0E-10", UOf(s, q))   \* entropy deficit in [0, log2 n]
    /\ LET e == "0.0001" IN NNearTol(VOf(s, q), NDiv(NSub(LogS(s, NAdd(q, e)), LogS(s, NSub(q, e))), NMul(2, e)), "1.0", "1.0E-5")
Pair(q, f(_, _)) == <<f(s, q), f(t, q)>>
Reg(Y) == ScaleSlope(Y, 1, 2, <<Len(s), Len(t)>>)
Legendre == two => \A q \in Qs :
    LET zeta == Reg(Pair(q, LogS)) h == Reg(Pair(q, VOf)) D == NAdd(1, Reg(Pair(q, UOf)))
    IN near(D, NSub(NAdd(1, NMul(q, h)), zeta))
\* --- cumulants
K == CumulantsOf(ln, MaxM)
Central(m) == Mean(NPowSeq(NShiftSeq(ln, NNeg(Mean(ln))), m))
nearm(m, a, b) == NNearTol(a, b, NPow(NAdd(2, NMag(ln)), m), "1.0E-11")
CumLaws == (one /\ ~two) => \E k \in {K} :
    /\ nearm(1, k[1], Mean(ln)) /\ nearm(2, k[2], Central(2)) /\ nearm(3, k[3], Central(3))
    /\ nearm(4, k[4], NSub(Central(4), NMul(3, NSq(Central(2)))))
    /\ (MaxM >= 5 => nearm(5, k[5], NSub(Central(5), NMul(10, NMul(Central(2), Central(3))))))
    /\ (MaxM >= 6 => nearm(6, k[6], NAdd(NSub(NSub(Central(6), NMul(15, NMul(Central(4), Central(2)))), NMul(10, NSq(Central(3)))),
                                     NMul(30, NPow(Central(2), 3)))))
    \* degenerate, translated, scaled, repeated samples
    /\ (Len(s) = 1 => \A m \in 2..MaxM : nearm(m, k[m], 0))
    /\ \A m \in 1..MaxM : LET kk == CumulantsOf(NShiftSeq(NScaleSeq(ln, -2), 5), MaxM) IN
          NNearTol(kk[m], NAdd(NMul(NPow(-2, m), k[m]), IF m = 1 THEN 5 ELSE 0), NPow(NAdd(8, NMul(2, NMag(ln))), m), "1.0E-11")
    /\ \A m \in 1..MaxM : nearm(m, CumulantsOf(ln \o ln, MaxM)[m], k[m])
\* cumulants of independent sums add: the empirical law of all x_i + y_j
Outer(x, y) == [i \in 1..(Len(x) * Len(y)) |-> NAdd(x[((i - 1) \div Len(y)) + 1], y[((i - 1) % Len(y)) + 1])]
Additive == two => LET x == ln y == NLnSeq(NAbsSeq(t)) kx == CumulantsOf(x, MaxM) ky == CumulantsOf(y, MaxM) ks == CumulantsOf(Outer(x, y), MaxM)
                   IN \A m \in 1..MaxM : NNearTol(ks[m], NAdd(kx[m], ky[m]), NPow(NAdd(4, NAdd(NMag(x), NMag(y))), m), "1.0E-11")
\* log-cumulants generate the structure function: log S(q) = sum c_m q^m/m! (small q)
Generating == (one /\ ~two) => LET q == "0.01" IN
    NNearTol(NLn(S(s, q)), NSum([m \in 1..MaxM |-> NMul(K[m], NDiv(NPow(q, m), Fact(m)))]), "1.0", "1.0E-8")
\* --- hmin, counts, missing entries
Missing == (one /\ ~two) => \A pos \in 0..Len(s) :
    LET u == SubSeq(s, 1, pos) \o <<NaN>> \o SubSeq(s, pos + 1, Len(s)) IN
    ValidOf(<<[k |-> "t", sh |-> <<Len(u), 1>>, d |-> u, e |-> ""]>>, 1)[1][1] = s
Sup == (one /\ ~two) => near(LogSup(s), NLog2(NMaxSeq(NAbsSeq(s)))) /\ \A i \in 1..Len(s) : NLeq(NLog2(NAbs(s[i])), LogSup(s))
=============================================================================
