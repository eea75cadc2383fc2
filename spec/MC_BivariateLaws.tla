-------------------------- MODULE MC_BivariateLaws --------------------------
(***************************************************************************)
(* Identities of the bivariate estimators (C15, C16), for every pair of    *)
(* samples of up to MaxLen coefficients from Vals.                         *)
(***************************************************************************)
EXTENDS Bivariate
CONSTANTS Vals, Qs, MaxLen, MaxM
VARIABLES a, b
Init == a = <<>> /\ b = <<>>
Next == /\ Len(a) < MaxLen
        /\ \E v, w \in Vals : a' = Append(a, v) /\ b' = Append(b, w)
on == a # <<>>
near(x, y) == NNearTol(x, y, "1.0", "1.0E-10")
Structure == on => \A q1, q2 \in Qs :
    /\ near(NLog2(BiS(a, b, q1, q2)), NLog2(BiS(b, a, q2, q1)))
    /\ near(NLog2(BiS(a, b, q1, 0)), NLog2(S(a, q1))) /\ near(NLog2(BiS(a, b, 0, q2)), NLog2(S(b, q2)))
    /\ near(NLog2(BiS(a, a, q1, q2)), NLog2(S(a, NAdd(q1, q2))))
    \* amplitude and sign of either signal
    /\ near(NLog2(BiS(NScaleSeq(a, -4), b, q1, q2)), NAdd(NMul(2, q1), NLog2(BiS(a, b, q1, q2))))
    \* Cauchy-Schwarz
    /\ NLeq(NSq(BiS(a, b, q1, q2)), NMul("1.0000000001", NMul(S(a, NMul(2, q1)), S(b, NMul(2, q2)))))
Coh == on => \E c \in {Coherence(a, b)} :
    /\ NLeq(NAbs(c), "1.0000000001") /\ near(c, Coherence(b, a)) /\ near(Coherence(a, a), 1) /\ near(Coherence(a, NScaleSeq(a, -2)), -1)
    /\ near(Coherence(NScaleSeq(a, 3), NScaleSeq(b, -5)), NNeg(c))
Cum == on =>
    LET ka == CumulantsOf(LnMag(a), MaxM) kb == CumulantsOf(LnMag(b), MaxM) co == CoCumulant(a, b) IN
    /\ near(co, CoCumulant(b, a)) /\ near(CoCumulant(a, a), ka[2])
    /\ NLeq(NSq(co), NAdd(NMul(ka[2], kb[2]), "1.0E-10"))                        \* |RHO_MF| <= 1
    \* the cumulants of the product: K_2(ln|ab|) = K_2(a) + K_2(b) + 2 C_11
    /\ near(CumulantsOf(LnMag(NMulSeq(a, b)), 2)[2], NAdd(NAdd(ka[2], kb[2]), NMul(2, co)))
    /\ \A m1, m2 \in 0..MaxM : near(BiC(ka, kb, co, m1, m2), BiC(kb, ka, CoCumulant(b, a), m2, m1))
    /\ near(CoCumulant(NScaleSeq(a, -7), b), co)
\* a joint permutation or missing pair changes nothing
Joint == on =>
    LET n == Len(a) rev(x) == [i \in 1..n |-> x[n + 1 - i]]
        P(x, y) == PairValid(x, y)
        q == P(<<NaN>> \o rev(a), <<NaN>> \o rev(b)) IN
    /\ q[1] = rev(a) /\ q[2] = rev(b)
    /\ P(a \o <<"1.0">>, b \o <<NaN>>)[1] = a
    /\ near(BiS(q[1], q[2], 1, 2), BiS(a, b, 1, 2)) /\ near(CoCumulant(q[1], q[2]), CoCumulant(a, b))
\* the spectrum is 1 at (c10, c01) and symmetric about it
Legendre == on => LET c == [c10 |-> "0.8", c01 |-> "0.6", c20 |-> "-0.05", c02 |-> "-0.08", c11 |-> "0.02"]
                      flip == [c10 |-> c.c01, c01 |-> c.c10, c20 |-> c.c02, c02 |-> c.c20, c11 |-> c.c11] IN
    /\ near(LTerm(c, "0.8", "0.6").v, 1)
    \* it is the Legendre transform of the quadratic zeta: L = 1 + (q, C q)/2 at h = grad zeta(q)
    /\ \A i \in 1..Len(a) : LET u == a[i] v == b[i]
            h == NAdd(c.c10, NAdd(NMul(c.c20, u), NMul(c.c11, v)))  k == NAdd(c.c01, NAdd(NMul(c.c11, u), NMul(c.c02, v)))
            zeta == NAdd(NAdd(NMul(c.c10, u), NMul(c.c01, v)), NAdd(NDiv(NAdd(NMul(c.c20, NSq(u)), NMul(c.c02, NSq(v))), 2), NMul(c.c11, NMul(u, v))))
        IN near(LTerm(c, h, k).v, NSub(NAdd(1, NAdd(NMul(u, h), NMul(v, k))), zeta))
    /\ \A i \in 1..Len(a) : LET h == NAdd("0.8", NDiv(a[i], 10)) k == NAdd("0.6", NDiv(b[i], 10)) IN
          /\ NLeq(LTerm(c, h, k).v, "1.0000000001")
          /\ near(LTerm(c, h, k).v, LTerm(flip, k, h).v)
          /\ near(LTerm(c, h, k).v, LTerm(c, NSub("1.6", h), NSub("1.2", k)).v)
=============================================================================
