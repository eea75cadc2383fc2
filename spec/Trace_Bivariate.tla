--------------------------- MODULE Trace_Bivariate ---------------------------
(***************************************************************************)
(* A record: v1, v2 (tensors per scale, shape <<n_j, 1>>), parameters, and *)
(* the attributes of four objects: out = (1,2), swap = (2,1), self = (1,1),*)
(* plus the univariate estimators u1, u2 of each quantity.                 *)
(***************************************************************************)
EXTENDS Bivariate, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
VARIABLE l

Fin(t) == SelectSeq(t.d, LAMBDA x : IsFinite(x))
Mag(t) == IF IsT(t) THEN NMag(Fin(t)) ELSE "0.0"
Idx(s, v) == {i \in 1..Len(s) : NEq(s[i], v)}
Header(tag, rec, o) ==
    Chk(tag \o ".header.j", IsVec(o.j, Len(rec.v1)) /\ \A i \in 1..Len(rec.v1) : NEq(o.j.d[i], i))
    \cup Chk(tag \o ".header.formalism", o.formalism = rec.formalism)
    \cup Chk(tag \o ".header.nj", Len(o.nj) = Len(rec.v1) /\ \A j \in 1..Len(rec.v1) :
             IsVec(o.nj[j], 1) /\ NEq(o.nj[j].d[1], Len(NValid(rec.v1[j].d))))

JudgeStructure(rec) ==
    LET T1 == rec.v1  T2 == rec.v2  J == Len(T1)
        Q1 == rec.q1.d  Q2 == rec.q2.d  n1 == Len(Q1)  n2 == Len(Q2)
        o == rec.out  w == rec.swap  s == rec.self
        P == TLCEval([j \in 1..J |-> TLCEval(PairValid(T1[j].d, T2[j].d))])
        W == IF rec.weighted THEN [j \in 1..(rec.j2 - rec.j1 + 1) |-> Len(P[rec.j1 + j - 1][1])] ELSE Ones(rec.j2 - rec.j1 + 1)
        ELog == TLCEval([i \in 1..n1 |-> TLCEval([k \in 1..n2 |-> TLCEval([j \in 1..J |->
                    NLog2(BiS(P[j][1], P[j][2], Q1[i], Q2[k]))])])])
        Rep(i, k) == TLCEval([j \in 1..J |-> At3(o.logvalues, i, k, j)])
        shapes(x, a, b) == HasShape(x.logvalues, <<a, b, J>>) /\ HasShape(x.zeta, <<a, b>>) /\ HasShape(x.intercept, <<a, b>>)
        need == \A v \in {"0.0", "1.0", "2.0"} : Idx(Q1, v) # {} /\ Idx(Q2, v) # {}
        ECoh == TLCEval([j \in 1..J |-> Coherence(P[j][1], P[j][2])])
        sc(i, k) == NAdd("1.0", NMag(ELog[i][k]))
    IN
    IF ~(shapes(o, n1, n2) /\ shapes(w, n2, n1) /\ shapes(s, n1, n1)) THEN {"C15.shape"} ELSE
    Chk("C15.logvalues", \A i \in 1..n1, k \in 1..n2, j \in 1..J : NNear(At3(o.logvalues, i, k, j), ELog[i][k][j], "1.0"))
    \cup Chk("C15.zeta", \A i \in 1..n1, k \in 1..n2 :
            NNear(At2(o.zeta, i, k), ScaleSlope(ELog[i][k], rec.j1, rec.j2, W), sc(i, k)))
    \cup Chk("C15.intercept", \A i \in 1..n1, k \in 1..n2 :
            NNear(At2(o.intercept, i, k), ScaleIntercept(ELog[i][k], rec.j1, rec.j2, W), sc(i, k)))
    \cup Chk("C07.bi.zeta", \A i \in 1..n1, k \in 1..n2 :
            LET y == Rep(i, k) IN
            /\ NNear(At2(o.zeta, i, k), ScaleSlope(y, rec.j1, rec.j2, W), NAdd("1.0", NMag(y)))
            /\ NNear(At2(o.intercept, i, k), ScaleIntercept(y, rec.j1, rec.j2, W), NAdd("1.0", NMag(y))))
    \cup (IF ~need THEN Chk("C15.coherence.none", IsNone(o.coherence) /\ IsNone(w.coherence))
          ELSE IF ~(IsVec(o.coherence, J) /\ IsVec(w.coherence, J)) THEN {"C15.coherence.shape"}
          ELSE Chk("C15.coherence", \A j \in 1..J : NNear(o.coherence.d[j], ECoh[j], "1.0"))
               \cup Chk("C15.coherence.range", \A j \in 1..J : NLeq(NAbs(o.coherence.d[j]), "1.000000001"))
               \cup Chk("C15.coherence.swap", NearSeq(w.coherence.d, o.coherence.d, "1.0")))
    \cup (IF \A v \in {"0.0", "1.0", "2.0"} : Idx(Q1, v) # {} THEN
            Chk("C15.coherence.self", IsVec(s.coherence, J) /\ \A j \in 1..J : NNear(s.coherence.d[j], "1.0", "1.0")) ELSE {})
    \cup Chk("C15.swap", \A i \in 1..n1, k \in 1..n2 :
            /\ NNear(At2(w.zeta, k, i), At2(o.zeta, i, k), sc(i, k))
            /\ NNear(At2(w.intercept, k, i), At2(o.intercept, i, k), sc(i, k))
            /\ \A j \in 1..J : NNear(At3(w.logvalues, k, i, j), At3(o.logvalues, i, k, j), "1.0"))
    \cup Chk("C15.marginal1", \A i \in 1..n1, k \in Idx(Q2, "0.0") :
            IsMat(rec.u1.zeta, n1, 1) /\ NNear(At2(o.zeta, i, k), At2(rec.u1.zeta, i, 1), sc(i, k)))
    \cup Chk("C15.marginal2", \A k \in 1..n2, i \in Idx(Q1, "0.0") :
            IsMat(rec.u2.zeta, n2, 1) /\ NNear(At2(o.zeta, i, k), At2(rec.u2.zeta, k, 1), sc(i, k)))
    \cup Chk("C15.self", \A i, k \in 1..n1 :
            LET y == [j \in 1..J |-> NLog2(S(P[j][1], NAdd(Q1[i], Q1[k])))] IN
            /\ \A j \in 1..J : NNear(At3(s.logvalues, i, k, j), y[j], "1.0")
            /\ NNear(At2(s.zeta, i, k), ScaleSlope(y, rec.j1, rec.j2, W), NAdd("1.0", NMag(y))))
    \cup Chk("C15.header.gamint", IsScalar(o.gamint) /\ NEq(Sc(o.gamint), Sc(rec.gamint)))
    \cup Header("C15", rec, o)

\* different missing positions: the mean runs over the positions valid in both
JudgeJoint(rec) ==
    LET J == Len(rec.v1)  Q1 == rec.q1.d  Q2 == rec.q2.d  n1 == Len(Q1)  n2 == Len(Q2)  o == rec.out
        P == TLCEval([j \in 1..J |-> TLCEval(PairValid(rec.v1[j].d, rec.v2[j].d))])
        E(i, k) == TLCEval([j \in 1..J |-> NLog2(BiS(P[j][1], P[j][2], Q1[i], Q2[k]))])
        W == Ones(rec.j2 - rec.j1 + 1)
    IN
    IF ~(HasShape(o.logvalues, <<n1, n2, J>>) /\ HasShape(o.zeta, <<n1, n2>>) /\ HasShape(o.intercept, <<n1, n2>>))
    THEN {"C15.joint.shape"} ELSE
    Chk("C15.joint.logvalues", \A i \in 1..n1, k \in 1..n2 : LET e == E(i, k) IN
            \A j \in 1..J : NNear(At3(o.logvalues, i, k, j), e[j], "1.0"))
    \cup Chk("C15.joint.zeta", \A i \in 1..n1, k \in 1..n2 : LET e == E(i, k) IN
            /\ NNear(At2(o.zeta, i, k), ScaleSlope(e, rec.j1, rec.j2, W), NAdd("1.0", NMag(e)))
            /\ NNear(At2(o.intercept, i, k), ScaleIntercept(e, rec.j1, rec.j2, W), NAdd("1.0", NMag(e))))

CumTol == <<"1.0E-10", "1.0E-10", "1.0E-10", "1.0E-10", "1.0E-10", "1.0E-10", "2.0E-10", "5.0E-10", "2.0E-9">>
JudgeCumulants(rec) ==
    LET T1 == rec.v1  T2 == rec.v2  J == Len(T1)  M == rec.n_cumul
        o == rec.out  w == rec.swap  s == rec.self
        P == TLCEval([j \in 1..J |-> TLCEval(PairValid(T1[j].d, T2[j].d))])
        K1 == TLCEval([j \in 1..J |-> TLCEval(CumulantsOf(LnMag(P[j][1]), M))])
        K2 == TLCEval([j \in 1..J |-> TLCEval(CumulantsOf(LnMag(P[j][2]), M))])
        CO == TLCEval([j \in 1..J |-> CoCumulant(P[j][1], P[j][2])])
        E(m1, m2, j) == BiC(K1[j], K2[j], CO[j], m1, m2)
        W == IF rec.weighted THEN [j \in 1..(rec.j2 - rec.j1 + 1) |-> Len(P[rec.j1 + j - 1][1])] ELSE Ones(rec.j2 - rec.j1 + 1)
        mag == TLCEval(NAdd("1.0", NMaxSeq([j \in 1..(2 * J) |-> IF j <= J THEN NMag(LnMag(P[j][1])) ELSE NMag(LnMag(P[j - J][2]))])))
        D == 0..M
        sc(a, b) == NPow(mag, IF a + b < 2 THEN 2 ELSE a + b)
        tol(a, b) == IF a + b <= 9 THEN CumTol[IF a + b = 0 THEN 1 ELSE a + b] ELSE "2.0E-9"
        shapes(x) == /\ HasShape(x.values, <<M + 1, M + 1, J>>) /\ HasShape(x.log_cumulants, <<M + 1, M + 1>>)
                     /\ HasShape(x.slope, <<M + 1, M + 1>>) /\ HasShape(x.intercept, <<M + 1, M + 1>>)
        V3(x, a, b, j) == At3(x.values, a + 1, b + 1, j)
        L2(x, a, b) == At2(x, a + 1, b + 1)
        Rep(x, a, b) == TLCEval([j \in 1..J |-> V3(x, a, b, j)])
        coef == rec.formalism = "wavelet coef"
        norho == coef \/ M < 2
        \* the correlation computed from variances; ill-conditioned when a variance is tiny
        rs(j) == NDiv(NMul("1.0E-12", NSq(mag)), NSqrt(NMul(K1[j][2], K2[j][2])))
        \* no correlation where a quantity is constant up to rounding
        okr(j) == NLt(NMul("1.0E-11", NSq(mag)), NAbs(K1[j][2])) /\ NLt(NMul("1.0E-11", NSq(mag)), NAbs(K2[j][2]))
        RJ == {j \in 1..J : okr(j)}
        p == NMul(L2(o.log_cumulants, 2, 0), L2(o.log_cumulants, 0, 2))
        rh == NDiv(NNeg(L2(o.log_cumulants, 1, 1)), NSqrt(p))
    IN
    IF ~(shapes(o) /\ shapes(w) /\ shapes(s)) THEN {"C16.shape"} ELSE
    Chk("C16.values", \A a, b \in D, j \in 1..J : NNearTol(V3(o, a, b, j), E(a, b, j), sc(a, b), tol(a, b)))
    \cup Chk("C16.log_cumulants", \A a, b \in D :
            NNearTol(L2(o.log_cumulants, a, b), NMul(Log2e, ScaleSlope([j \in 1..J |-> E(a, b, j)], rec.j1, rec.j2, W)), sc(a, b), tol(a, b)))
    \cup Chk("C07.bi.log_cumulants", \A a, b \in D : LET y == Rep(o, a, b) IN
            /\ NNear(L2(o.log_cumulants, a, b), NMul(Log2e, ScaleSlope(y, rec.j1, rec.j2, W)), NMag(y))
            /\ NNear(L2(o.slope, a, b), ScaleSlope(y, rec.j1, rec.j2, W), NMag(y))
            /\ NNear(L2(o.intercept, a, b), ScaleIntercept(y, rec.j1, rec.j2, W), NMag(y)))
    \cup Chk("C16.m", IsVec(o.m, M + 1) /\ \A a \in D : NEq(o.m.d[a + 1], a))
    \cup Chk("C16.attr.c", \A i \in 1..Len(rec.attrs) : LET t == rec.attrs[i] IN
            IsVec(t.c, 1) /\ NEq(Sc(t.c), L2(o.log_cumulants, t.m1, t.m2)))
    \cup Chk("C16.attr.C", \A i \in 1..Len(rec.attrs) : LET t == rec.attrs[i] IN
            HasShape(t.C, <<1, J>>) /\ SameSeq(t.C.d, Rep(o, t.m1, t.m2)))
    \cup Chk("C16.swap", \A a, b \in D :
            /\ NNearTol(L2(w.log_cumulants, b, a), L2(o.log_cumulants, a, b), sc(a, b), tol(a, b))
            /\ \A j \in 1..J : NNearTol(V3(w, b, a, j), V3(o, a, b, j), sc(a, b), tol(a, b)))
    \cup Chk("C16.self", \A a \in 1..M, j \in 1..J :
            /\ NNearTol(V3(s, a, 0, j), K1[j][a], sc(a, 0), tol(a, 0))
            /\ NNearTol(V3(s, 0, a, j), K1[j][a], sc(a, 0), tol(a, 0))
            /\ (M >= 2 => NNearTol(V3(s, 1, 1, j), K1[j][2], sc(1, 1), tol(1, 1))))
    \cup Chk("C16.univariate", /\ IsMat(rec.u1.log_cumulants, M, 1) /\ IsMat(rec.u2.log_cumulants, M, 1)
            /\ \A a \in 1..M :
                /\ NNearTol(L2(o.log_cumulants, a, 0), At2(rec.u1.log_cumulants, a, 1), sc(a, 0), tol(a, 0))
                /\ NNearTol(L2(o.log_cumulants, 0, a), At2(rec.u2.log_cumulants, a, 1), sc(a, 0), tol(a, 0)))
    \cup (IF norho THEN Chk("C16.rho.none", IsNone(o.RHO_MF) /\ IsNone(o.rho_mf))
          ELSE IF ~(IsVec(o.RHO_MF, J) /\ IsScalar(o.rho_mf) /\ IsVec(s.RHO_MF, J) /\ IsVec(w.RHO_MF, J)) THEN {"C16.rho.shape"}
          ELSE Chk("C16.RHO_MF", \A j \in RJ :
                    NNearTol(o.RHO_MF.d[j], NDiv(CO[j], NSqrt(NMul(K1[j][2], K2[j][2]))), "1.0", NAdd("1.0E-9", rs(j))))
               \cup Chk("C16.RHO_MF.range", \A j \in RJ : NLeq(NAbs(o.RHO_MF.d[j]), NAdd("1.000000001", rs(j))))
               \cup Chk("C16.RHO_MF.self", \A j \in RJ : NNearTol(s.RHO_MF.d[j], "1.0", "1.0", NAdd("1.0E-9",
                            NDiv(NMul("1.0E-12", NSq(mag)), K1[j][2]))))
               \cup Chk("C16.RHO_MF.swap", \A j \in RJ : NNearTol(w.RHO_MF.d[j], o.RHO_MF.d[j], "1.0", NAdd("1.0E-9", rs(j))))
               \cup Chk("C16.rho_mf", NLt("0.0", p) => NNear(Sc(o.rho_mf), rh, "0.0"))
               \cup Chk("C16.rho_mf.swap", NLt("0.0", p) => NNearTol(Sc(w.rho_mf), Sc(o.rho_mf), "1.0", "1.0E-6")))
    \cup (IF M < 2 THEN {} ELSE
            LET g == rec.leg
                c == [c10 |-> L2(o.log_cumulants, 1, 0), c01 |-> L2(o.log_cumulants, 0, 1), c20 |-> L2(o.log_cumulants, 2, 0),
                      c02 |-> L2(o.log_cumulants, 0, 2), c11 |-> L2(o.log_cumulants, 1, 1)]
                b == NSub(NMul(c.c20, c.c02), NSq(c.c11))
                \* conditioning of b, computed by a cancelling difference
                cond == NDiv(NAdd(NAbs(NMul(c.c20, c.c02)), NSq(c.c11)), NAbs(b))
                n == g.n
            IN IF ~(IsVec(g.h, n) /\ IsMat(g.L, n, n)) THEN {"C16.legendre.shape"}
               ELSE Chk("C16.legendre.h", \A i \in 1..n :
                        NNear(g.h.d[i], NAdd(g.lo, NDiv(NMul(i - 1, NSub(g.hi, g.lo)), n - 1)), "1.0"))
                    \cup Chk("C16.legendre", NLt(cond, "1.0E5") => \A i, k \in 1..n :
                        LET t == LTerm(c, g.h.d[i], g.h.d[k]) IN NNear(At2(g.L, i, k), t.v, t.scale)))
    \cup Header("C16", rec, o)

Judge(rec) ==
    IF rec.raised # "" THEN {rec.prop \o ".raised." \o rec.op \o "." \o rec.raised}
    ELSE IF rec.op = "bistructure" THEN JudgeStructure(rec)
    ELSE IF rec.op = "bijoint" THEN JudgeJoint(rec)
    ELSE IF rec.op = "bicumulants" THEN JudgeCumulants(rec)
    ELSE Assert(FALSE, rec.op)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ \E v \in {Judge(Trace[l])} : PrintT("REC " \o ToString(l) \o " " \o ToJson(v))
        /\ l' = l + 1
=============================================================================
