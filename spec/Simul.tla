------------------------------- MODULE Simul -------------------------------
(***************************************************************************)
(* Synthesis: Gaussian processes as linear images of white noise, and the  *)
(* processes built from them.  Rows are time, columns realisations; lags   *)
(* and times are counted from 0 in the formulas, from 1 in the sequences.  *)
(***************************************************************************)
EXTENDS Tensor

AbsI(k) == IF k < 0 THEN -k ELSE k
\* 0^0 = 1, as in the floating point power
PowI(k, e) == NPow(AbsI(k), e)
FgnCov(k, H, sigma, dt) ==
    LET e == NMul(2, H) IN
    NMul(NMul(NPow(dt, e), NDiv(NSq(sigma), 2)),
         NSub(NAdd(PowI(k + 1, e), PowI(k - 1, e)), NMul(2, PowI(k, e))))
\* covariance of the log-volatility w at lag k, integral scale L (in samples)
WCov(k, lam, L) == IF k < NFloor(L) THEN NMul(NSq(lam), NLn(NDiv(L, k + 1))) ELSE "0.0"

\* covariance of the centred process w - mean(w) at times a, b (1-based)
RowMean(N, lam, L, a) == NDiv(NSum([c \in 1..N |-> WCov(AbsI(a - c), lam, L)]), N)
CentredCov(N, lam, L) ==
    LET rm == TLCEval([a \in 1..N |-> RowMean(N, lam, L, a)])
        gm == NDiv(NSum(rm), N)
    IN TLCEval([a \in 1..N |-> TLCEval([b \in 1..N |->
          NAdd(NSub(NSub(WCov(AbsI(a - b), lam, L), rm[a]), rm[b]), gm)])])
\* the same at the times t (0-based) of a long series, without the whole matrix
CentredCovAt(N, lam, L, t) ==
    LET w == TLCEval([k \in 1..N |-> WCov(k - 1, lam, L)])
        pre == TLCEval(NCumSum(w))                          \* pre[k] = w_0 + ... + w_(k-1)
        rm(a) == NDiv(NSub(NAdd(pre[a + 1], pre[N - a]), w[1]), N)
        gm == NDiv(NSub(NMul("2.0", NDot([k \in 1..N |-> NDiv(N - k + 1, N)], w)), w[1]), N)
        rms == TLCEval([i \in 1..Len(t) |-> rm(t[i])])
    IN TLCEval([i \in 1..Len(t) |-> TLCEval([k \in 1..Len(t) |->
          NAdd(NSub(NSub(w[AbsI(t[i] - t[k]) + 1], rms[i]), rms[k]), gm)])])

Diff(s) == [i \in 1..Len(s) |-> IF i = 1 THEN s[1] ELSE NSub(s[i], s[i - 1])]

\* causal convolution: e has 2N entries, the result the last N times
SkewPast(e, N, K0, alpha, dt, beta) ==
    [k \in 1..N |-> NDiv(NMul(K0, NSum([tau \in 1..N |-> NDiv(e[N + k - tau], NPow(tau, alpha))])), NPow(dt, beta))]

\* --------------------------------------------------------- 2-D integration
Filt(k1, k2, H) == LET d2 == k1 * k1 + k2 * k2 IN
                   IF d2 = 0 THEN "1.0" ELSE NPow(d2, NNeg(NDiv(NAdd(H, "1.0"), 2)))
\* kernel g[d1][d2] (displacements 0..N-1) of the Fourier filter
Kernel(N, H) ==
    LET ct == TLCEval([i \in 1..N |-> NCos(NDiv(NMul(NMul(2, NPi), i - 1), N))])
        ks == [i \in 1..N |-> i - 1 - (N \div 2)]
        fl == TLCEval([i \in 1..(N * N) |-> Filt(ks[(i - 1) \div N + 1], ks[((i - 1) % N) + 1], H)])
        Mod(x) == ((x % N) + N) % N
    IN TLCEval([d1 \in 1..N |-> TLCEval([d2 \in 1..N |->
        NDiv(NDot(fl, [i \in 1..(N * N) |->
                ct[Mod((ks[(i - 1) \div N + 1] * (d1 - 1)) + (ks[((i - 1) % N) + 1] * (d2 - 1))) + 1]]), N * N)])])
\* covariance of the log-volatility of the field at the displacement d on the
\* torus, integral scale L; the field is sigma g exp(w), g white
WCov2(d2, lam, L) == LET q == NDiv(L, NAdd("1.0", NSqrt(d2))) IN
                     IF NLeq(q, "1.0") THEN "0.0" ELSE NMul(NSq(lam), NLn(q))
Torus(d, N) == LET m == ((d % N) + N) % N IN IF 2 * m > N THEN N - m ELSE m
\* mean and variance of ln |g|
MeanLogNormal == "-0.6351814227307391"
VarLogNormal == NDiv(NSq(NPi), "8.0")
=============================================================================
