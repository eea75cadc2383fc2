------------------------- MODULE Trace_Multifractal -------------------------
(***************************************************************************)
(* Conformance with Multifractal.tla (C27).  A record names the generators *)
(* of the quantities handed to the library (or of the Haar coefficients of *)
(* the signal handed to it), and what the library reported for them; the   *)
(* expected values are the closed forms, which know neither the quantity   *)
(* nor the estimators.                                                     *)
(***************************************************************************)
EXTENDS Multifractal, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
VARIABLE l

Close(x, y, scale) == NNearTol(x, y, scale, "1.0E-8")
\* size of the logarithms of a cascade
Size(g) == NAdd(NAdd("1.0", NMul(g.top, NMag(NLog2Seq(NAbsSeq(g.m))))), NAdd(NMul(g.top, NAbs(g.s)), NAbs(g.t)))

Structure(tag, o, G, r) ==
    LET Q == r.q.d  nq == Len(Q)  R == r.R  J == r.J
        two == {i \in 1..nq : NEq(Q[i], "2.0")}
        sc(i, c) == NMul(Size(G[c]), NAdd("1.0", NAbs(Q[i]))) IN
    IF ~(HasShape(o.logvalues, <<nq, J, R>>) /\ HasShape(o.zeta, <<nq, R>>) /\ HasShape(o.intercept, <<nq, R>>)) THEN {tag \o ".structure.shape"} ELSE
    Chk(tag \o ".logS", \A i \in 1..nq, j \in 1..J, c \in 1..R : Close(At3(o.logvalues, i, j, c), ThLogS(G[c], Q[i], j), sc(i, c)))
    \cup Chk(tag \o ".zeta", \A i \in 1..nq, c \in 1..R : Close(At2(o.zeta, i, c), ThZeta(G[c], Q[i]), sc(i, c)))
    \cup Chk(tag \o ".zeta.intercept", \A i \in 1..nq, c \in 1..R : Close(At2(o.intercept, i, c), ThZetaIntercept(G[c], Q[i]), sc(i, c)))
    \cup (IF two = {} THEN Chk(tag \o ".H.none", IsNone(o.H))
          ELSE Chk(tag \o ".H", IsVec(o.H, R) /\ \A c \in 1..R : Close(o.H.d[c], NSub(NDiv(ThZeta(G[c], 2), 2), r.gamint), Size(G[c]))))
Cumulant(tag, o, G, r) ==
    LET M == r.M  R == r.R  J == r.J
        K == TLCEval([c \in 1..R |-> TLCEval(Kappa(G[c].m, M))])
        sc(c, k) == NPow(Size(G[c]), k)
        tol(k) == IF k <= 3 THEN "1.0E-9" ELSE "1.0E-8" IN
    IF ~(HasShape(o.values, <<M, J, R>>) /\ HasShape(o.log_cumulants, <<M, R>>)) THEN {tag \o ".cumulants.shape"} ELSE
    Chk(tag \o ".C", \A k \in 1..M, j \in 1..J, c \in 1..R : NNearTol(At3(o.values, k, j, c), ThC(G[c], k, K[c], j), sc(c, k), tol(k)))
    \cup Chk(tag \o ".c", \A k \in 1..M, c \in 1..R : NNearTol(At2(o.log_cumulants, k, c), ThLogCumulant(G[c], k, K[c]), sc(c, k), tol(k)))
Spectrum(tag, o, G, r) ==
    LET Q == r.q.d  nq == Len(Q)  R == r.R  J == r.J
        sc(i, c) == NMul(Size(G[c]), NAdd("1.0", NAbs(Q[i]))) IN
    IF ~(HasShape(o.U, <<J, nq, R>>) /\ HasShape(o.V, <<J, nq, R>>) /\ HasShape(o.Dq, <<nq, R>>) /\ HasShape(o.hq, <<nq, R>>))
    THEN {tag \o ".spectrum.shape"} ELSE
    Chk(tag \o ".V", \A i \in 1..nq, j \in 1..J, c \in 1..R : Close(At3(o.V, j, i, c), ThV(G[c], Q[i], j), sc(i, c)))
    \cup Chk(tag \o ".U", \A i \in 1..nq, j \in 1..J, c \in 1..R : Close(At3(o.U, j, i, c), ThU(G[c], Q[i], j), sc(i, c)))
    \cup Chk(tag \o ".h", \A i \in 1..nq, c \in 1..R : Close(At2(o.hq, i, c), ThH(G[c], Q[i]), sc(i, c)))
    \cup Chk(tag \o ".D", \A i \in 1..nq, c \in 1..R : Close(At2(o.Dq, i, c), ThD(G[c], Q[i]), sc(i, c)))
Hmin(tag, h, G, r) == Chk(tag \o ".hmin", IsVec(h, r.R) /\ \A c \in 1..r.R : Close(h.d[c], ThHmin(G[c]), Size(G[c])))
Var(tag, v, G, r) ==
    IF v.k # "var" THEN {tag \o ".missing"}
    ELSE Structure(tag, v.structure, G, r) \cup Cumulant(tag, v.cumulants, G, r) \cup Spectrum(tag, v.spectrum, G, r) \cup Hmin(tag, v.hmin, G, r)

\* the mean p-th power of p-leaders
PLeader(r, G) ==
    LET o == r.lwt.structure  Q == r.q.d  nq == Len(Q)  R == r.R  J == r.J
        ip == {i \in 1..nq : NEq(Q[i], r.p)}
        cor == \A c \in 1..R : NLt("0.0", ThZeta(G[c], r.p))
        clear == \A c \in 1..R : NLt("0.001", NAbs(ThZeta(G[c], r.p)))
        sc(c) == NMul(Size(G[c]), NAdd("1.0", r.p)) IN
    Chk("eta", IsVec(r.eta, R) /\ \A c \in 1..R : Close(r.eta.d[c], ThZeta(G[c], r.p), sc(c)))
    \cup IF r.lwt.k # "var" THEN {"leaders.missing"} ELSE IF ~HasShape(o.logvalues, <<nq, J, R>>) THEN {"leaders.shape"}
         ELSE IF ~clear THEN {}
         ELSE Chk("leaders.logS", \A i \in ip, j \in 1..J, c \in 1..R :
                  NNearTol(At3(o.logvalues, i, j, c), ThLogSLeader(G[c], r.p, j, 2^(G[c].top - j), cor), sc(c), "1.0E-7"))
JudgeUni(r) ==
    Var("dwt", r.dwt, r.gens[1], r)
    \cup (IF r.leaders = "none" THEN Chk("lwt.none", r.lwt.k = "none")
          ELSE IF r.leaders \in {"full", "mono"} THEN Var("lwt", r.lwt, r.gens[2], r)
          ELSE IF r.leaders = "sup" THEN (IF r.lwt.k # "var" THEN {"lwt.missing"} ELSE Hmin("lwt", r.lwt.hmin, r.gens[2], r))
          ELSE PLeader(r, r.gens[2]))

BiVar(tag, v, a, b, sign, r) ==
    LET Q1 == r.q1.d  Q2 == r.q2.d  n1 == Len(Q1)  n2 == Len(Q2)  J == r.J  M == r.M
        MM == IF M < 2 THEN 2 ELSE M
        KA == TLCEval(Kappa(a.m, MM))  KB == TLCEval(Kappa(b.m, MM))
        size == NMax(Size(a), Size(b))
        s == v.structure  c == v.cumulants
        sc(i, k) == NMul(size, NAdd("1.0", NAdd(NAbs(Q1[i]), NAbs(Q2[k]))))
        cs(i, k) == NPow(size, IF i + k < 2 THEN 2 ELSE i + k)
    IN
    IF v.k # "var" THEN {tag \o ".missing"}
    ELSE IF ~(HasShape(s.logvalues, <<n1, n2, J>>) /\ HasShape(s.zeta, <<n1, n2>>) /\ IsVec(s.coherence, J)
              /\ HasShape(c.values, <<M + 1, M + 1, J>>) /\ HasShape(c.log_cumulants, <<M + 1, M + 1>>)) THEN {tag \o ".shape"} ELSE
    Chk(tag \o ".logS", \A i \in 1..n1, k \in 1..n2, j \in 1..J : Close(At3(s.logvalues, i, k, j), ThBiLogS(a, b, Q1[i], Q2[k], j), sc(i, k)))
    \cup Chk(tag \o ".zeta", \A i \in 1..n1, k \in 1..n2 : Close(At2(s.zeta, i, k), ThBiZeta(a, b, Q1[i], Q2[k]), sc(i, k)))
    \cup Chk(tag \o ".coherence", \A j \in 1..J : NNearTol(s.coherence.d[j], ThCoherence(a, b, sign, j), "1.0", "1.0E-8"))
    \cup Chk(tag \o ".C", \A m1, m2 \in 0..M, j \in 1..J : Close(At3(c.values, m1 + 1, m2 + 1, j), ThBiC(a, b, KA, KB, m1, m2, j), cs(m1, m2)))
    \cup Chk(tag \o ".c", \A m1, m2 \in 0..M : Close(At2(c.log_cumulants, m1 + 1, m2 + 1), ThBiLogCumulant(a, b, KA, KB, m1, m2), cs(m1, m2)))
    \cup (IF tag = "dwt" \/ M < 2 THEN Chk(tag \o ".rho.none", IsNone(c.RHO_MF) /\ IsNone(c.rho_mf))
          ELSE Chk(tag \o ".rho", IsVec(c.RHO_MF, J) /\ IsScalar(c.rho_mf)
                /\ (\A j \in 1..J : NNearTol(c.RHO_MF.d[j], ThRho(a, b, KA, KB), "1.0", "1.0E-6"))
                /\ NNearTol(Sc(c.rho_mf), ThRho(a, b, KA, KB), "1.0", "1.0E-6")))
AbsG(g) == [g EXCEPT !.m = NAbsSeq(g.m)]
JudgeBi(r) ==
    BiVar("dwt", r.dwt, r.a, r.b, r.sign, r)
    \cup (IF r.lead THEN BiVar("lwt", r.lwt, AbsG(r.a), AbsG(r.b), "1.0", r) ELSE Chk("lwt.none", r.lwt.k = "none"))

JudgePsd(r) ==
    LET J == r.J  g == r.g  sc == Size(g) IN
    IF ~(IsT(r.psd) /\ Len(r.psd.d) = J /\ IsVec(r.freq, J) /\ IsScalar(r.beta) /\ IsScalar(r.logC)) THEN {"psd.shape"} ELSE
    Chk("psd", \A j \in 1..J : Close(NLog2(r.psd.d[j]), ThLogS(g, 2, j), sc))
    \cup Chk("freq", \A j \in 1..J : NNear(r.freq.d[j], NDiv(NMul("0.75", r.fs), NPow("2.0", j)), "0.0"))
    \cup Chk("beta", Close(Sc(r.beta), NNeg(ThZeta(g, 2)), sc))
    \* at frequency f = 0.75 fs 2^-j: log psd = beta log f + log C
    \cup Chk("logC", LET c == NAdd(ThZetaIntercept(g, 2), NMul(ThZeta(g, 2), NLog2(NMul("0.75", r.fs))))
                     IN Close(Sc(r.logC), IF r.log = "log2" THEN c ELSE NMul(Ln2, c), NMul(sc, NAdd("10.0", NAbs(NLog2(r.fs))))))

Judge(r) ==
    {r.prop \o "." \o x : x \in
        IF r.raised # "" THEN {"raised." \o r.op \o "." \o r.raised}
        ELSE IF r.op = "uni" THEN JudgeUni(r)
        ELSE IF r.op = "bi" THEN JudgeBi(r)
        ELSE JudgePsd(r)}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN PrintT("REC " \o ToString(l) \o " " \o ToJson(v))
        /\ l' = l + 1
=============================================================================
