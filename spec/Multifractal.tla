----------------------------- MODULE Multifractal -----------------------------
(***************************************************************************)
(* Quantities whose multifractal parameters are known in closed form:      *)
(* deterministic multiplicative cascades.  A generator g is a record       *)
(*    m    sequence of b non-zero multipliers                              *)
(*    top  the scale of the root                                           *)
(*    s, t exponent and (base 2 logarithm of the) amplitude:               *)
(* the quantity at scale j <= top consists of the b^(top-j) products of    *)
(* one multiplier per generation, times 2^(s j + t).  Every estimate of    *)
(* the library then is an exact affine function of j, and its exponents    *)
(* are those of the thermodynamic formalism below, whatever the scale      *)
(* range, the weights, the order of the coefficients and missing entries.  *)
(***************************************************************************)
EXTENDS Bivariate, Wavelet

RECURSIVE Products(_, _)
\* products of d multipliers in lexicographic order of the digits
Products(m, d) ==
    IF d = 0 THEN <<"1.0">>
    ELSE LET p == Products(m, d - 1) b == Len(m)
         IN TLCEval([i \in 1..(b * Len(p)) |-> NMul(p[((i - 1) \div b) + 1], m[((i - 1) % b) + 1])])
AmpLog(g, j) == NAdd(NMul(g.s, j), g.t)                  \* log2 of the amplitude at scale j
Quantity(g, j) == NScaleSeq(Products(g.m, g.top - j), NPow("2.0", AmpLog(g, j)))

(* ---- thermodynamic formalism of the multipliers ---- *)
MeanPow(m, q) == Mean(NPowSeq(NAbsSeq(m), q))
Pressure(m, q) == NLog2(MeanPow(m, q))
Gibbs(m, q) == LET p == NPowSeq(NAbsSeq(m), q) IN NScaleSeq(p, NDiv("1.0", NSum(p)))
Alpha(m, q) == NDot(Gibbs(m, q), NLog2Seq(NAbsSeq(m)))
Entropy(m, q) == LET r == Gibbs(m, q) IN NAdd(NLog2(Len(m)), NDot(r, NLog2Seq(r)))
Kappa(m, M) == CumulantsOf(LnMag(m), M)

(* ---- per scale ---- *)
ThLogS(g, q, j) == NAdd(NMul(g.top - j, Pressure(g.m, q)), NMul(q, AmpLog(g, j)))
ThV(g, q, j) == NAdd(NMul(g.top - j, Alpha(g.m, q)), AmpLog(g, j))
ThU(g, q, j) == NMul(g.top - j, Entropy(g.m, q))
Ln2 == "0.6931471805599453"
ThC(g, k, K, j) == NAdd(NMul(g.top - j, K[k]), IF k = 1 THEN NMul(Ln2, AmpLog(g, j)) ELSE "0.0")
ThSup(g, j) == NAdd(NMul(g.top - j, NLog2(NMaxSeq(NAbsSeq(g.m)))), AmpLog(g, j))

(* ---- exponents ---- *)
ThZeta(g, q) == NSub(NMul(q, g.s), Pressure(g.m, q))
ThZetaIntercept(g, q) == NAdd(NMul(g.top, Pressure(g.m, q)), NMul(q, g.t))
ThLogCumulant(g, k, K) == NAdd(NNeg(NMul(Log2e, K[k])), IF k = 1 THEN g.s ELSE "0.0")
ThH(g, q) == NSub(g.s, Alpha(g.m, q))
ThD(g, q) == NSub("1.0", Entropy(g.m, q))
ThHmin(g) == NSub(g.s, NLog2(NMaxSeq(NAbsSeq(g.m))))

(* ---- two quantities with a common tree: digit i multiplies by g.m[i], h.m[i] ---- *)
BiPressure(g, h, q1, q2) == NLog2(BiS(g.m, h.m, q1, q2))
ThBiLogS(g, h, q1, q2, j) ==
    NAdd(NMul(g.top - j, BiPressure(g, h, q1, q2)), NAdd(NMul(q1, AmpLog(g, j)), NMul(q2, AmpLog(h, j))))
ThBiZeta(g, h, q1, q2) == NSub(NAdd(NMul(q1, g.s), NMul(q2, h.s)), BiPressure(g, h, q1, q2))
ThCoherence(g, h, sign, j) == NMul(sign, NPow(Coherence(g.m, h.m), g.top - j))
ThBiC(g, h, KA, KB, m1, m2, j) ==
    LET c == BiC(KA, KB, CoCumulant(g.m, h.m), m1, m2) IN
    NAdd(NMul(g.top - j, c),
         IF m1 = 1 /\ m2 = 0 THEN NMul(Ln2, AmpLog(g, j)) ELSE IF m1 = 0 /\ m2 = 1 THEN NMul(Ln2, AmpLog(h, j)) ELSE "0.0")
ThBiLogCumulant(g, h, KA, KB, m1, m2) ==
    NAdd(NNeg(NMul(Log2e, BiC(KA, KB, CoCumulant(g.m, h.m), m1, m2))),
         IF m1 = 1 /\ m2 = 0 THEN g.s ELSE IF m1 = 0 /\ m2 = 1 THEN h.s ELSE "0.0")
ThRho(g, h, KA, KB) == NDiv(CoCumulant(g.m, h.m), NSqrt(NMul(KA[2], KB[2])))

(* ---- signals whose Haar coefficients form a given cascade ---- *)
\* The inverse of the pyramid of Wavelet.tla with the filters (1, 1)/sqrt 2 and
\* (1, -1)/sqrt 2: the signal of 2^top samples with zero mean whose coefficients
\* at scale j, before normalisation and fractional integration, are
\* Quantity(g, j) / f[j], f[j] = ScaleFactor(j, ...).
Root2 == NSqrt("2.0")
RECURSIVE Synthesis(_, _, _, _)
Synthesis(g, j, low, f) ==
    IF j = 0 THEN low
    ELSE LET d == NScaleSeq(Quantity(g, j), NDiv("1.0", f[j]))
             up == TLCEval([i \in 1..(2 * Len(low)) |-> LET k == (i + 1) \div 2 IN
                        NDiv(IF i % 2 = 1 THEN NSub(low[k], d[k]) ELSE NAdd(low[k], d[k]), Root2)])
         IN Synthesis(g, j - 1, up, f)
HaarLo == <<NDiv("1.0", Root2), NDiv("1.0", Root2)>>
HaarHi == <<NNeg(NDiv("1.0", Root2)), NDiv("1.0", Root2)>>        \* reversed in time
\* The exponent eta of p-leaders, and the mean of their p-th power: every
\* coefficient interval is covered by exactly three leaders when the n positions
\* of the tree are surrounded by missing data, so n + 2 leaders are valid.
ThLogSLeader(g, p, j, n, corrected) ==
    LET eta == ThZeta(g, p) IN
    NAdd(NAdd(NLog2(NDiv(3 * n, n + 2)), ThLogS(g, p, j)),
         IF corrected THEN "0.0"
         ELSE NLog2(NSum([i \in 1..j |-> NPow("2.0", NNeg(NMul(i - 1, eta)))])))
=============================================================================
