--------------------------- MODULE Trace_Spectral ---------------------------
EXTENDS Spectral, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
VARIABLE l

JudgeWelch(r) ==
    LET x == r.x.d  m == WelchSeg(Len(x), r.nfft, r.seg)  N == WelchNfft(r.nfft, r.seg)
        n == N \div 2 + 1
    IN IF ~(IsVec(r.freq, n) /\ IsVec(r.psd, n)) THEN {"C19.welch.shape"}
       ELSE Chk("C19.welch.freq", \A k \in 1..n : NNear(r.freq.d[k], NDiv(NMul(r.fs, k - 1), N), "0.0"))
            \cup LET P == Welch(x, N, m)  sc == NMag(P) IN
                 Chk("C19.welch.psd", \A k \in 1..n : NNearTol(r.psd.d[k], P[k], sc, "1.0E-11"))

JudgeWpsd(r) ==
    LET hi == Rev(NScaleSeq(r.hi, -1))  lo == Rev(r.lo)
        J == Len(r.freq.d)
    IN IF ~(IsVec(r.freq, J) /\ HasShape(r.psd, <<J, r.R>>)) THEN {"C19.wavelet.shape"}
       ELSE LET D == TLCEval([c \in 1..r.R |-> Pyramid(Col(r.x, c), hi, lo, 1, J)]) IN
            Chk("C19.wavelet.freq", \A j \in 1..J : NNear(r.freq.d[j], Freq(j, r.fs), "0.0"))
            \cup Chk("C19.wavelet.psd", \A c \in 1..r.R : \A j \in 1..J :
                    NNearTol(At2(r.psd, j, c), MeanSq(D[c][j]),
                             NMul(NSq(NMag(Col(r.x, c))), NPow(4, j)), "1.0E-12")
                    /\ NNearTol(At2(r.psd, j, c), MeanSq(D[c][j]), "0.0", "1.0E-5"))
            \* as many scales as the data supports
            \cup Chk("C19.wavelet.scales", LET L == Len(r.hi) IN
                    /\ J <= MaxLevel(r.n, L)
                    /\ \A c \in 1..r.R : \A j \in 1..J : ValidCount(D[c][j]) >= 3
                    /\ (J < MaxLevel(r.n, L) => \E c \in 1..r.R : ValidCount(Pyramid(Col(r.x, c), hi, lo, 1, J + 1)[J + 1]) < 3))

\* two calls of the same estimator: amplitude scaled by a, sampling frequency by b
JudgeLaw(r) ==
    Chk("C19." \o r.est \o ".quadratic", IsT(r.p1) /\ r.p1.k = r.p2.k /\ r.p1.sh = r.p2.sh
            /\ NearSeqTol(NScaleSeq(r.p1.d, NSq(r.a)), r.p2.d, NMul(NSq(r.a), NMag(r.p1.d)), "1.0E-11"))
    \cup Chk("C19." \o r.est \o ".fs", r.p1.sh = r.p3.sh /\ NearSeq(r.p1.d, r.p3.d, "0.0")
            /\ NearSeq(NScaleSeq(r.f1.d, r.b), r.f3.d, "0.0"))

JudgeConv(r) ==
    Chk("C20.scale2freq", r.f.k = "t" /\ r.f.sh = r.j.sh /\ \A i \in 1..Len(r.j.d) : NNear(r.f.d[i], Freq(r.j.d[i], r.fs), "0.0"))
    \cup Chk("C20.freq2scale", r.back.k = "t" /\ r.back.sh = r.j.sh /\ \A i \in 1..Len(r.j.d) : NNear(r.back.d[i], r.j.d[i], "1.0"))
    \cup Chk("C20.freq2scale.inverse", r.there.k = "t" /\ r.there.sh = r.g.sh /\ \A i \in 1..Len(r.g.d) : NNear(r.there.d[i], r.g.d[i], "0.0"))
    \cup Chk("C20.psd.axis", r.axis.k = "t" /\ r.axisf.k = "t" /\ NearSeq(r.axis.d, r.axisf.d, "0.0")
             /\ \A i \in 1..Len(r.axis.d) : NNear(r.axis.d[i], Freq(i, r.fs), "0.0"))
JudgeBand(r) ==
    IF ~(IsScalar(r.a) /\ IsScalar(r.b)) THEN {"C20.fband.shape"}
    ELSE LET B == InBand(r.lo, r.hi, r.fs) IN
         IF B = {} THEN Chk("C20.fband.empty", NLt(Sc(r.b), Sc(r.a)))
         ELSE Chk("C20.fband.first", NEq(Sc(r.a), CHOOSE j \in B : \A i \in B : j <= i))
              \cup Chk("C20.fband.last", NEq(Sc(r.b), CHOOSE j \in B : \A i \in B : i <= j))
              \cup Chk("C20.fband.int", r.ints)
JudgeQ(r) ==
    IF ~(r.out.k = "t" /\ Len(r.out.sh) = 1) THEN {"C20.qlog.shape"}
    ELSE LET q == r.out.d  n == Len(q)
             step == IF r.n < 2 THEN "0.0" ELSE NDiv(NSub(NLn(r.hi), NLn(r.lo)), r.n - 1)
             grid == TLCEval([i \in 1..r.n |-> NExp(NAdd(NLn(r.lo), NMul(i - 1, step)))])
             base == <<"0.0", "1.0", "2.0">>
             all == grid \o base
             Near(a, b) == NNearTol(a, b, "0.0", "1.0E-10")
         IN Chk("C20.qlog.sorted", \A i \in 1..(n - 1) : NLt(q[i], q[i + 1]))
            \cup Chk("C20.qlog.symmetric", \A i \in 1..n : NEq(q[i], NNeg(q[n + 1 - i])))
            \cup Chk("C20.qlog.grid", \A i \in 1..Len(all) : \E k \in 1..n : Near(q[k], all[i]))
            \cup Chk("C20.qlog.only", \A k \in 1..n : \E i \in 1..Len(all) : Near(NAbs(q[k]), all[i]))
            \cup Chk("C20.qlog.exact", \A b \in {"-2.0", "-1.0", "0.0", "1.0", "2.0"} : \E k \in 1..n : NEq(q[k], b))
JudgeQReject(r) == Chk("C20.qlog.reject", r.res = "ValueError")

\* no frequency (but zero) within the band: no estimate
JudgeNoBeta(r) == Chk("C21.harness", \A i \in 1..Len(r.f.d) : NEq(r.f.d[i], "0.0") \/ ~(NLeq(r.lo, r.f.d[i]) /\ NLeq(r.f.d[i], r.hi)))
                  \cup Chk("C21.emptyband", r.res = "none")

JudgeBeta(r) ==
    LET F == Fit(r.f.d, r.p.d, r.lo, r.hi, r.log) IN
    IF ~(IsScalar(r.beta) /\ IsScalar(r.logC)) THEN {"C21.shape"}
    ELSE Chk("C21." \o r.src \o ".beta", NNearTol(Sc(r.beta), F.slope, F.mag, "1.0E-10"))
         \cup Chk("C21." \o r.src \o ".log_C", NNearTol(Sc(r.logC), F.intercept, F.mag, "1.0E-9"))
         \cup Chk("C21." \o r.src \o ".freq", r.freq.k = "t" /\ Len(r.freq.d) = Len(F.x)
                  /\ NearSeqTol(r.freq.d, F.x, "1.0", "1.0E-12"))
         \cup (IF r.exact = "no" THEN {}
               ELSE Chk("C21.powerlaw.beta", NNearTol(Sc(r.beta), r.expb, F.mag, "1.0E-10"))
                    \cup Chk("C21.powerlaw.log_C", NNearTol(Sc(r.logC), LogOf(r.log, r.expC), F.mag, "1.0E-9")))

Judge(r) ==
    IF r.raised # "" THEN {r.prop \o ".raised." \o r.op \o "." \o r.raised}
    ELSE CASE r.op = "welch" -> JudgeWelch(r)
           [] r.op = "wpsd" -> JudgeWpsd(r)
           [] r.op = "law" -> JudgeLaw(r)
           [] r.op = "conv" -> JudgeConv(r)
           [] r.op = "band" -> JudgeBand(r)
           [] r.op = "qlog" -> JudgeQ(r)
           [] r.op = "qreject" -> JudgeQReject(r)
           [] r.op = "beta" -> JudgeBeta(r)
           [] r.op = "nobeta" -> JudgeNoBeta(r)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ \E v \in {Judge(Trace[l])} : PrintT("REC " \o ToString(l) \o " " \o ToJson(v))
        /\ l' = l + 1
=============================================================================
