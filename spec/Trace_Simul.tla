----------------------------- MODULE Trace_Simul -----------------------------
EXTENDS Simul, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
VARIABLE l

\* ------------------------------------------------------------------- fGn
\* out: the images of an orthonormal basis of the noise, one per column:
\* the covariance of the process is the Gram matrix of its rows
JudgeGram(r) ==
    IF ~IsMat(r.out, r.N, r.basis) THEN {"C22.gram.shape"}
    ELSE LET rows == TLCEval([i \in 1..r.N |-> Row(r.out, i)])
             C(k) == FgnCov(k, r.H, r.sigma, r.dt)
             cov == TLCEval([k \in 1..r.N |-> C(k - 1)])
         IN Chk("C22.covariance." \o r.method, \A a, b \in 1..r.N :
                NNearTol(NDot(rows[a], rows[b]), cov[AbsI(a - b) + 1], cov[1], "1.0E-9"))
JudgeGramLarge(r) ==
    LET n == Len(r.idx) IN
    IF ~IsMat(r.out, n, r.basis) THEN {"C22.gram.shape"}
    ELSE LET rows == TLCEval([i \in 1..n |-> Row(r.out, i)])
             \* second differences of (lag)^2H: their rounding grows with the lag
             var == NMul(FgnCov(0, r.H, r.sigma, r.dt), NAdd("1.0", NMul("1.0E-6", NPow(r.N, NMul(2, r.H)))))
         IN Chk("C22.covariance.long." \o r.method, \A a, b \in 1..n :
                NNearTol(NDot(rows[a], rows[b]), FgnCov(AbsI(r.idx[a] - r.idx[b]), r.H, r.sigma, r.dt), var, "1.0E-9"))
\* the process driven by numpy's generator: second moments over R realisations
\* (6 standard deviations of the estimator; the draw is fixed by the seed)
JudgeSample(r) ==
    IF ~IsMat(r.out, r.N, r.R) THEN {"C22.sample.shape"}
    ELSE LET rows == TLCEval([i \in 1..r.N |-> Row(r.out, i)])
             cov == TLCEval([k \in 1..r.N |-> FgnCov(k - 1, r.H, r.sigma, r.dt)])
             bound == NMul(NMul("6.0", NMul("1.5", cov[1])), NDiv("1.0", NSqrt(r.R)))
             next == TLCEval([i \in 1..r.N |-> SubSeq(rows[i], 2, r.R) \o <<rows[i][1]>>])
             half == TLCEval([i \in 1..r.N |-> SubSeq(rows[i], r.R \div 2 + 1, r.R) \o SubSeq(rows[i], 1, r.R \div 2)])
             zero == NMul(NMul("6.0", cov[1]), NDiv("1.0", NSqrt(r.R)))
         IN Chk("C22.sample.covariance", \A a, b \in 1..r.N :
                NLeq(NAbs(NSub(NDiv(NDot(rows[a], rows[b]), r.R), cov[AbsI(a - b) + 1])), bound))
            \cup Chk("C22.sample.mean", \A a \in 1..r.N : NLeq(NAbs(NDiv(NSum(rows[a]), r.R)), NMul("6.0", NSqrt(NDiv(cov[1], r.R)))))
            \* realisations are uncorrelated
            \cup Chk("C22.sample.realisations", \A a \in 1..r.N :
                /\ NLeq(NAbs(NDiv(NDot(rows[a], next[a]), r.R)), zero)
                /\ NLeq(NAbs(NDiv(NDot(rows[a], half[a]), r.R)), NMul("1.5", zero)))
JudgeLinear(r) ==
    Chk("C22.linear", r.x.k = "t" /\ r.x.sh = r.y.sh /\ r.x.sh = r.xy.sh
        /\ NearSeqTol([i \in 1..Len(r.x.d) |-> NAdd(NMul(r.a, r.x.d[i]), NMul(r.b, r.y.d[i]))], r.xy.d,
                      NAdd(NMag(r.x.d), NMag(r.y.d)), "1.0E-9"))
    \cup Chk("C22.columns", r.cols.k = "t" /\ NearSeqTol(r.cols.d, r.x.d, NMag(r.x.d), "1.0E-9"))
JudgeShape(r) ==
    LET want == IF r.R = 0 THEN <<r.N>> ELSE <<r.N, r.R>>
        R == IF r.R = 0 THEN 1 ELSE r.R
    IN Chk("C22.shape.fgn", HasShape(r.fgn, want)) \cup Chk("C22.shape.fbm", HasShape(r.fbm, want))
       \cup (IF ~(HasShape(r.fgn, want) /\ HasShape(r.fbm, want)) THEN {}
             ELSE LET c(t, j) == NStride(t.d, j, R) IN
                  Chk("C22.fbm", \A j \in 1..R : NearSeqTol(NCumSum(c(r.fgn, j)), c(r.fbm, j), NMul(r.N, NMag(r.fgn.d)), "1.0E-11")))
JudgeReject(r) == Chk(r.prop \o ".reject." \o r.what, r.res # "value")

\* ------------------------------------------------------------------- MRW
\* out = cumsum(e exp(v)): the log-volatility v actually used
LogVol(out, e, j, R) ==
    LET x == TLCEval(Diff(NStride(out.d, j, R)))  ee == NStride(e.d, j, R) IN
    TLCEval([i \in 1..Len(x) |-> NLn(NDiv(x[i], ee[i]))])
JudgeMrwGram(r) ==
    \* one column per element of the basis of the noise of w, and a last one for zero noise
    IF ~(IsMat(r.out, r.N, r.basis + 1) /\ IsMat(r.e, r.N, r.basis + 1)) THEN {"C23.mrw.shape"}
    ELSE LET V == TLCEval([j \in 1..(r.basis + 1) |-> LogVol(r.out, r.e, j, r.basis + 1)])
             c == NNeg(NDiv(NMul(NSq(r.lam), NLn(r.L)), 2))
             CC == CentredCov(r.N, r.lam, r.L)
             rows == TLCEval([i \in 1..r.N |-> TLCEval([j \in 1..r.basis |-> NSub(V[j][i], c)])])
         IN Chk("C23.mrw.offset", \A i \in 1..r.N : NNearTol(V[r.basis + 1][i], c, "1.0", "1.0E-9"))
            \cup Chk("C23.mrw.covariance." \o r.method, \A a, b \in 1..r.N :
                NNearTol(NDot(rows[a], rows[b]), CC[a][b], NMul(NSq(r.lam), NAdd("1.0", NAbs(NLn(r.L)))), "1.0E-7"))
            \cup Chk("C23.mrw.centred", \A j \in 1..r.basis : NLeq(NAbs(NSum([i \in 1..r.N |-> rows[i][j]])), "1.0E-8"))
\* long series: rows at the times idx only
JudgeMrwLong(r) ==
    LET n == Len(r.idx)  R == r.basis + 1 IN
    IF ~(IsMat(r.out, n, R) /\ IsMat(r.e, n, R) /\ IsMat(r.before, n, R)) THEN {"C23.mrw.shape"}
    ELSE LET c == NNeg(NDiv(NMul(NSq(r.lam), NLn(r.L)), 2))
             V == TLCEval([i \in 1..n |-> LET o == Row(r.out, i) b == Row(r.before, i) e == Row(r.e, i) IN
                     TLCEval([j \in 1..R |-> NSub(NLn(NDiv(NSub(o[j], b[j]), e[j])), c)])])
             rows == TLCEval([i \in 1..n |-> SubSeq(V[i], 1, r.basis)])
             CC == CentredCovAt(r.N, r.lam, r.L, r.idx)
         IN Chk("C23.mrw.offset", \A i \in 1..n : NNearTol(V[i][R], "0.0", "1.0", "1.0E-9"))
            \cup Chk("C23.mrw.covariance.long." \o r.method, \A a, b \in 1..n :
                NNearTol(NDot(rows[a], rows[b]), CC[a][b], NMul(NSq(r.lam), NAdd("1.0", NAbs(NLn(r.L)))), "1.0E-7"))
\* log-volatilities from drawn noise: independent realisations, right covariance
JudgeVolSample(r) ==
    IF ~(IsMat(r.out, r.N, r.R) /\ IsMat(r.e, r.N, r.R)) THEN {"C23." \o r.src \o ".shape"}
    ELSE LET V == TLCEval([j \in 1..r.R |-> LogVol(r.out, r.e, j, r.R)])
             c == NNeg(NMul(NMul(NSq(r.lam), r.r), NLn(r.L)))
             CC == CentredCov(r.N, r.lam, r.L)
             rows == TLCEval([i \in 1..r.N |-> TLCEval([j \in 1..r.R |-> NSub(V[j][i], c)])])
             next == TLCEval([i \in 1..r.N |-> SubSeq(rows[i], 2, r.R) \o <<rows[i][1]>>])
             top == NMaxSeq([a \in 1..r.N |-> CC[a][a]])
             bound == NAdd("1.0E-10", NMul(NMul("8.0", NMul("1.5", top)), NDiv("1.0", NSqrt(r.R))))
         IN Chk("C23." \o r.src \o ".sample", \A a, b \in 1..r.N :
                NLeq(NAbs(NSub(NDiv(NDot(rows[a], rows[b]), r.R), CC[a][b])), bound))
            \cup Chk("C23." \o r.src \o ".offset", \A j \in 1..r.R : NNearTol(NDiv(NSum(V[j]), r.N), c, "1.0", "1.0E-6"))
            \cup Chk("C23." \o r.src \o ".realisations", \A a \in 1..r.N : NLeq(NAbs(NDiv(NDot(rows[a], next[a]), r.R)), bound))
JudgeSame(r) == Chk("C23." \o r.what, r.a.k = "t" /\ r.a.sh = r.b.sh /\ NearSeqTol(r.a.d, r.b.d, NMag(r.b.d), "1.0E-9"))

\* --------------------------------------------------------------- skewness
JudgeConv(r) ==
    IF ~IsMat(r.out, r.N, r.R) THEN {"C23." \o r.what \o ".shape"}
    ELSE Chk("C23." \o r.what, \A j \in 1..r.R :
            NearSeqTol(NStride(r.out.d, j, r.R), SkewPast(NStride(r.e.d, j, r.R), r.N, r.K0, r.alpha, r.dt, r.beta),
                       NMul(NMul(r.K0, NMag(r.e.d)), NDiv(r.N, NPow(r.dt, r.beta))), "1.0E-10"))
\* Runs with the same noise: plain (K0 = 0), (K0, alpha), (K0b, alphab), and
\* the mirror of the second.  The first N increments are not returned; they
\* are recovered from the second run (back substitution) and must explain the
\* third.
RECURSIVE Recover(_, _, _, _, _, _)
Recover(past, known, N, k, K, alpha) ==
    \* known: e at times k+1..2N (as a sequence), past: convolution at 1..N
    IF k = 0 THEN known
    ELSE LET s == NSum([tau \in 1..(N - 1) |-> NDiv(known[N - tau], NPow(tau, alpha))])
             v == NMul(NSub(NDiv(past[k], K), s), NPow(N, alpha))
         IN Recover(past, <<v>> \o known, N, k - 1, K, alpha)
JudgeSkew(r) ==
    LET N == r.N  R == r.R
        ok == /\ IsMat(r.plain, N, R) /\ IsMat(r.one, N, R) /\ IsMat(r.two, N, R) /\ IsMat(r.mirror, N, R)
        dtb == NPow(r.dt, r.beta)
    IN IF ~ok THEN {"C23.skewed.shape"} ELSE
       LET D(t, j) == TLCEval(Diff(NStride(t.d, j, R)))
           \* v = w - offset is the same in every run: e exp(v) is the plain one
           P1(j) == TLCEval([i \in 1..N |-> NNeg(NLn(NDiv(D(r.one, j)[i], D(r.plain, j)[i])))])
           P2(j) == TLCEval([i \in 1..N |-> NNeg(NLn(NDiv(D(r.two, j)[i], D(r.plain, j)[i])))])
           PM(j) == TLCEval([i \in 1..N |-> NLn(NDiv(NNeg(D(r.mirror, j)[i]), D(r.plain, j)[i]))])
       IN Chk("C23.skewed.mirror", \A j \in 1..R : NearSeqTol(PM(j), P1(j), "1.0", "1.0E-8"))
          \* with lam = 0 and L = dt the plain increments are the noise itself
          \cup (IF ~r.flat THEN {} ELSE
                Chk("C23.skewed.past", \A j \in 1..R :
                    \E e2 \in {D(r.plain, j)} : \E p1 \in {P1(j)} : \E p2 \in {P2(j)} :
                    \E e \in {Recover(p1, e2, N, N, NDiv(r.K0, dtb), r.alpha)} :
                       NearSeqTol(SkewPast(e, N, r.K0b, r.alphab, r.dt, r.beta), p2,
                                  NAdd("1.0", NMul(r.K0b, NMag(e))), "1.0E-6"))
                \cup Chk("C23.skewed.firsthalf", \A j \in 1..R :
                    \E e \in {Recover(P1(j), D(r.plain, j), N, N, NDiv(r.K0, dtb), r.alpha)} :
                       \* of the same order as the noise, and not a copy of it
                       /\ NLeq(NMag(SubSeq(e, 1, N)), NMul("12.0", NSqrt(FgnCov(0, r.H, r.sigma, r.dt))))
                       /\ \E i \in 1..N : ~NNearTol(e[i], e[N + i], "0.0", "1.0E-6")))

\* ------------------------------------------------------------------- 2-D
JudgeField(r) ==
    LET N == r.N  R == r.R IN
    IF ~(HasShape(r.X, <<N, N, R>>) /\ HasShape(r.B, <<N, N, R>>)) THEN {"C23.mrw2D.shape"}
    ELSE LET g == Kernel(N, r.H)
             Mod(x) == ((x % N) + N) % N
             flatg(a, b) == TLCEval([i \in 1..(N * N) |-> g[Mod(a - ((i - 1) \div N + 1)) + 1][Mod(b - (((i - 1) % N) + 1)) + 1]])
         IN Chk("C23.mrw2D.filter", \A c \in 1..R : \E x \in {NStride(r.X.d, c, R)} : \A a, b \in 1..N :
                NNearTol(At3(r.B, a, b, c), NDot(flatg(a, b), x), NMul(N, NMag(x)), "1.0E-10"))

\* the field over R realisations: second moments of its logarithm (5 standard deviations, bounded from above)
JudgeFieldSample(r) ==
    LET N == r.N  R == r.R IN
    IF ~HasShape(r.X, <<N, N, R>>) THEN {"C23.mrw2D.shape"}
    ELSE LET m == NAdd(MeanLogNormal, NLn(r.sigma))
             u == VarLogNormal
             v == WCov2(0, r.lam, r.L)
             sd == NDiv(NMul("1.5", NAdd(v, NDiv(NAdd(u, NSqrt(NMul(NMul("2.0", u), v))), N))), NSqrt(R))
             sdm == NDiv(NAdd(NSqrt(v), NDiv(NSqrt(u), N)), NSqrt(R))
             s == TLCEval([i \in 1..(N * N) |-> TLCEval([c \in 1..R |-> NSub(NLn(NAbs(r.X.d[(i - 1) * R + c])), m)])])
             next == TLCEval([i \in 1..(N * N) |-> SubSeq(s[i], 2, R) \o <<s[i][1]>>])
             sg == TLCEval([i \in 1..(N * N) |-> TLCEval([c \in 1..R |-> IF NLt(r.X.d[(i - 1) * R + c], 0) THEN -1 ELSE 1])])
             At(i, d1, d2) == ((((i - 1) \div N) + d1) % N) * N + ((((i - 1) % N) + d2) % N) + 1
             Avg(x, y, d1, d2) == NDiv(NSum([i \in 1..(N * N) |-> NDot(x[i], y[At(i, d1, d2)])]), N * N * R)
             D == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>, <<0, 2>>, <<1, 2>>, <<2, 2>>}
             T(d) == (Torus(d[1], N) * Torus(d[1], N)) + (Torus(d[2], N) * Torus(d[2], N))
         IN Chk("C23.mrw2D.volatility", \A d \in D :
                NLeq(NAbs(NSub(Avg(s, s, d[1], d[2]), NAdd(WCov2(T(d), r.lam, r.L), IF T(d) = 0 THEN u ELSE "0.0"))),
                     NMul(IF T(d) = 0 THEN "7.0" ELSE "5.0", sd)))
            \cup Chk("C23.mrw2D.scale", NLeq(NAbs(NDiv(NSum([i \in 1..(N * N) |-> NSum(s[i])]), N * N * R)), NMul("5.0", sdm)))
            \cup Chk("C23.mrw2D.signs", \A d \in D \ {<<0, 0>>} : NLeq(NAbs(Avg(sg, sg, d[1], d[2])), NDiv("8.0", NMul(N, NSqrt(R)))))
            \cup Chk("C23.mrw2D.realisations", NLeq(NAbs(Avg(s, next, 0, 0)), NMul("5.0", sd)))

Judge(r) ==
    IF r.raised # "" THEN {r.prop \o ".raised." \o r.op \o "." \o r.raised}
    ELSE CASE r.op = "gram" -> JudgeGram(r)
           [] r.op = "gramlarge" -> JudgeGramLarge(r)
           [] r.op = "sample" -> JudgeSample(r)
           [] r.op = "linear" -> JudgeLinear(r)
           [] r.op = "shape" -> JudgeShape(r)
           [] r.op = "reject" -> JudgeReject(r)
           [] r.op = "mrwgram" -> JudgeMrwGram(r)
           [] r.op = "mrwlong" -> JudgeMrwLong(r)
           [] r.op = "volsample" -> JudgeVolSample(r)
           [] r.op = "same" -> JudgeSame(r)
           [] r.op = "skewconv" -> JudgeConv(r)
           [] r.op = "skew" -> JudgeSkew(r)
           [] r.op = "field" -> JudgeField(r)
           [] r.op = "fieldsample" -> JudgeFieldSample(r)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ \E v \in {Judge(Trace[l])} : PrintT("REC " \o ToString(l) \o " " \o ToJson(v))
        /\ l' = l + 1
=============================================================================
