---------------------------- MODULE Trace_Stats ----------------------------
(***************************************************************************)
(* Conformance of linear_regression, StructureFunction, Cumulants,         *)
(* MultifractalSpectrum, estimate_hmin and compute_hurst.  Each record is  *)
(* one real call: its input quantity, parameters and everything it gave.   *)
(* Judge returns the names of the violated clauses, prefixed by the        *)
(* property they belong to.                                                *)
(***************************************************************************)
EXTENDS Stats, Json, IOUtils

\* read once: TLC re-evaluates a definition, not a register
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
VARIABLE l

AllR(R, P(_)) == \A r \in 1..R : P(r)

(* --------------------------- linear_regression --------------------------- *)
JudgeLinreg(rec) ==
    LET R == rec.x.sh[2] IN
    IF ~(IsVec(rec.a, R) /\ IsVec(rec.b, R)) THEN {"C07.linreg.shape"}
    ELSE LET X(r) == Col(rec.x, r)  Y(r) == Col(rec.y, r)  W(r) == Col(rec.w, r)
             mag(r) == NMag(Y(r))
         IN Chk("C07.linreg.slope", AllR(R, LAMBDA r : NNear(rec.a.d[r], Slope(X(r), Y(r), W(r)), mag(r))))
            \cup Chk("C07.linreg.intercept",
                     AllR(R, LAMBDA r : NNearTol(rec.b.d[r], Intercept(X(r), Y(r), W(r)), mag(r), "1.0E-7")))
            \cup (IF IsNone(rec.var) THEN {}
                  ELSE Chk("C07.linreg.variance",
                       IsVec(rec.var, R) /\ AllR(R, LAMBDA r : NNear(rec.var.d[r], SlopeVar(X(r), W(r)), "0.0"))))

(* ------------------------------ common part ------------------------------ *)
JudgeHeader(rec, V) ==
    LET o == rec.out  J == Len(V)  R == rec.R IN
    Chk("C14.header.j", IsVec(o.j, J) /\ \A i \in 1..J : NEq(o.j.d[i], rec.mrq.keys[i]))
    \cup Chk("C14.header.nrep", IsScalar(o.nrep) /\ NEq(Sc(o.nrep), R))
    \cup Chk("C14.header.formalism", o.formalism = rec.mrq.formalism)
    \cup Chk("C13.nj", Len(o.nj) = J /\ \A j \in 1..J :
                           IsVec(o.nj[j], R) /\ \A r \in 1..R : NEq(o.nj[j].d[r], Len(V[j][r])))

\* A scale where everything vanishes has no logarithm: estimates from it are
\* not finite, whatever the estimator; the others are what they are without it.
Agrees(a, b, sc) == IF IsFinite(b) THEN NNear(a, b, sc) ELSE ~IsFinite(a)
AgreesTol(a, b, sc, tol) == IF IsFinite(b) THEN NNearTol(a, b, sc, tol) ELSE ~IsFinite(a)
FMag(s) == LET m == NMag(s) IN IF IsFinite(m) THEN m ELSE NMag(SelectSeq(s, IsFinite))

(* --------------------------- StructureFunction --------------------------- *)
JudgeStructure(rec) ==
    LET o == rec.out  R == rec.R  T == rec.mrq.v  J == Len(T)  Q == rec.q.d  nq == Len(Q)
        V == ValidOf(T, R)
        shapes == /\ HasShape(o.values, <<nq, J, R>>) /\ HasShape(o.logvalues, <<nq, J, R>>)
                  /\ HasShape(o.zeta, <<nq, R>>) /\ HasShape(o.intercept, <<nq, R>>)
        W(r) == Weights(V, r, rec.j1, rec.j2, rec.weighted)
        Slog(i, r) == TLCEval([j \in 1..J |-> NLog2(S(V[j][r], Q[i]))])
        RepLog(i, r) == [j \in 1..J |-> At3(o.logvalues, i, j, r)]
        two == {i \in 1..nq : NEq(Q[i], "2.0")}
    IN
    IF ~shapes THEN {"C08.shape"} ELSE
    Chk("C08.values", \A i \in 1..nq, j \in 1..J, r \in 1..R :
            Agrees(At3(o.values, i, j, r), S(V[j][r], Q[i]), "0.0"))
    \cup Chk("C08.logvalues", \A i \in 1..nq, j \in 1..J, r \in 1..R :
            Agrees(At3(o.logvalues, i, j, r), NLog2(At3(o.values, i, j, r)), "1.0"))
    \cup Chk("C08.zeta", \A i \in 1..nq, r \in 1..R :
            LET y == Slog(i, r) IN Agrees(At2(o.zeta, i, r), ScaleSlope(y, rec.j1, rec.j2, W(r)), NAdd("1.0", FMag(y))))
    \cup Chk("C08.intercept", \A i \in 1..nq, r \in 1..R :
            LET y == Slog(i, r) IN Agrees(At2(o.intercept, i, r), ScaleIntercept(y, rec.j1, rec.j2, W(r)), NAdd("1.0", FMag(y))))
    \cup Chk("C07.zeta", \A i \in 1..nq, r \in 1..R :
            LET y == TLCEval(RepLog(i, r)) IN Agrees(At2(o.zeta, i, r), ScaleSlope(y, rec.j1, rec.j2, W(r)), NAdd("1.0", FMag(y))))
    \cup Chk("C07.zeta.intercept", \A i \in 1..nq, r \in 1..R :
            LET y == TLCEval(RepLog(i, r)) IN Agrees(At2(o.intercept, i, r), ScaleIntercept(y, rec.j1, rec.j2, W(r)), NAdd("1.0", FMag(y))))
    \cup (IF two = {} THEN Chk("C08.H.none", IsNone(o.H))
          ELSE Chk("C08.H", IsVec(o.H, R) /\ LET i == CHOOSE i \in two : TRUE IN \A r \in 1..R :
                   Agrees(o.H.d[r], NSub(NDiv(At2(o.zeta, i, r), 2), Sc(rec.mrq.gamint)), "1.0")))
    \cup (IF two = {} THEN Chk("C08.get_intercept.none", IsNone(o.getint))
          ELSE Chk("C08.get_intercept", IsVec(o.getint, R) /\ LET i == CHOOSE i \in two : TRUE IN
                   SameSeq(o.getint.d, Row(o.intercept, i))))
    \cup Chk("C14.header.gamint", IsScalar(o.gamint) /\ NEq(Sc(o.gamint), Sc(rec.mrq.gamint)))
    \cup JudgeHeader(rec, V)

(* ------------------------------- Cumulants ------------------------------- *)
CumTol == <<"1.0E-10", "1.0E-10", "1.0E-10", "1.0E-10", "1.0E-10", "1.0E-10", "2.0E-10", "5.0E-10", "2.0E-9">>
JudgeCumulants(rec) ==
    LET o == rec.out  R == rec.R  T == rec.mrq.v  J == Len(T)  M == rec.n_cumul
        V == ValidOf(T, R)
        Lg == TLCEval([j \in 1..J |-> TLCEval([r \in 1..R |-> NLnSeq(NAbsSeq(V[j][r]))])])
        K == TLCEval([j \in 1..J |-> TLCEval([r \in 1..R |-> TLCEval(CumulantsOf(Lg[j][r], M))])])
        mag == TLCEval(NAdd("1.0", NMaxSeq([i \in 1..(J * R) |-> FMag(Lg[(i - 1) \div R + 1][((i - 1) % R) + 1])])))
        W(r) == Weights(V, r, rec.j1, rec.j2, rec.weighted)
        shapes == /\ HasShape(o.values, <<M, J, R>>) /\ HasShape(o.log_cumulants, <<M, R>>)
                  /\ HasShape(o.slope, <<M, R>>) /\ HasShape(o.intercept, <<M, R>>)
                  /\ HasShape(o.var_log_cumulants, <<M, R>>)
        Rep(m, r) == TLCEval([j \in 1..J |-> At3(o.values, m, j, r)])
        sc(m) == NPow(mag, m)
    IN
    IF ~shapes THEN {"C09.shape"} ELSE
    Chk("C09.values", \A m \in 1..M, j \in 1..J, r \in 1..R :
            AgreesTol(At3(o.values, m, j, r), K[j][r][m], sc(m), CumTol[m]))
    \cup Chk("C09.log_cumulants", \A m \in 1..M, r \in 1..R :
            AgreesTol(At2(o.log_cumulants, m, r),
                     NMul(Log2e, ScaleSlope([j \in 1..J |-> K[j][r][m]], rec.j1, rec.j2, W(r))), sc(m), CumTol[m]))
    \cup Chk("C07.log_cumulants", \A m \in 1..M, r \in 1..R :
            LET y == Rep(m, r) IN
            /\ Agrees(At2(o.log_cumulants, m, r), NMul(Log2e, ScaleSlope(y, rec.j1, rec.j2, W(r))), FMag(y))
            /\ Agrees(At2(o.slope, m, r), ScaleSlope(y, rec.j1, rec.j2, W(r)), FMag(y))
            /\ Agrees(At2(o.intercept, m, r), ScaleIntercept(y, rec.j1, rec.j2, W(r)), FMag(y)))
    \cup Chk("C07.var_log_cumulants", \A m \in 1..M, r \in 1..R :
            Agrees(At2(o.var_log_cumulants, m, r),
                  NMul(NSq(Log2e), SlopeVar(Scales(rec.j1, rec.j2), W(r))), "0.0"))
    \cup Chk("C09.m", IsVec(o.m, M) /\ \A m \in 1..M : NEq(o.m.d[m], m))
    \cup Chk("C09.attr.c", Len(o.c) = M /\ \A m \in 1..M :
            HasShape(o.c[m], <<1, R>>) /\ SameSeq(o.c[m].d, Row(o.log_cumulants, m)))
    \cup Chk("C09.attr.C", Len(o.C) = M /\ \A m \in 1..M :
            HasShape(o.C[m], <<1, J, R>>)
            /\ SameSeq(o.C[m].d, SubSeq(o.values.d, (m - 1) * J * R + 1, m * J * R)))
    \* there is no row of an order that was not computed
    \cup Chk("C09.attr.beyond", \A i \in 1..Len(o.beyond) : o.beyond[i].k = "exc" \/ (o.beyond[i].k = "t" /\ Len(o.beyond[i].d) = 0))
    \cup Chk("C09.attr.M", IF M < 2 THEN o.M.k = "exc" \/ (o.M.k = "t" /\ Len(o.M.d) = 0) ELSE
            HasShape(o.M, <<1, R>>) /\ SameSeq(o.M.d, [r \in 1..R |-> NNeg(At2(o.log_cumulants, 2, r))]))
    \cup JudgeHeader(rec, V)

(* -------------------------------- spectrum ------------------------------- *)
JudgeSpectrum(rec) ==
    LET o == rec.out  R == rec.R  T == rec.mrq.v  J == Len(T)  Q == rec.q.d  nq == Len(Q)
        V == ValidOf(T, R)
        shapes == /\ HasShape(o.U, <<J, nq, R>>) /\ HasShape(o.V, <<J, nq, R>>)
                  /\ HasShape(o.Dq, <<nq, R>>) /\ HasShape(o.hq, <<nq, R>>)
        W(r) == Weights(V, r, rec.j1, rec.j2, rec.weighted)
        EU == TLCEval([j \in 1..J |-> TLCEval([i \in 1..nq |-> TLCEval([r \in 1..R |-> UOf(V[j][r], Q[i])])])])
        EV == TLCEval([j \in 1..J |-> TLCEval([i \in 1..nq |-> TLCEval([r \in 1..R |-> VOf(V[j][r], Q[i])])])])
        LS == TLCEval([j \in 1..J |-> TLCEval([i \in 1..nq |-> TLCEval([r \in 1..R |-> NLog2(S(V[j][r], Q[i]))])])])
        sc == NAdd("10.0", FMag(o.V.d))
        scq(i) == NMul(sc, NAdd("1.0", NAbs(Q[i])))
        zeta(i, r) == ScaleSlope([j \in 1..J |-> LS[j][i][r]], rec.j1, rec.j2, W(r))
    IN
    IF ~shapes THEN {"C10.shape"} ELSE
    Chk("C10.V", \A j \in 1..J, i \in 1..nq, r \in 1..R : Agrees(At3(o.V, j, i, r), EV[j][i][r], sc))
    \cup Chk("C10.U", \A j \in 1..J, i \in 1..nq, r \in 1..R : Agrees(At3(o.U, j, i, r), EU[j][i][r], scq(i)))
    \cup Chk("C10.legendre.scale", \A j \in 1..J, i \in 1..nq, r \in 1..R :
            Agrees(At3(o.U, j, i, r), NSub(NMul(Q[i], At3(o.V, j, i, r)), LS[j][i][r]), scq(i)))
    \cup Chk("C10.hq", \A i \in 1..nq, r \in 1..R :
            Agrees(At2(o.hq, i, r), ScaleSlope([j \in 1..J |-> EV[j][i][r]], rec.j1, rec.j2, W(r)), sc))
    \cup Chk("C10.Dq", \A i \in 1..nq, r \in 1..R :
            Agrees(At2(o.Dq, i, r), NAdd("1.0", ScaleSlope([j \in 1..J |-> EU[j][i][r]], rec.j1, rec.j2, W(r))), scq(i)))
    \cup Chk("C10.legendre", \A i \in 1..nq, r \in 1..R :
            Agrees(At2(o.Dq, i, r), NSub(NAdd("1.0", NMul(Q[i], At2(o.hq, i, r))), zeta(i, r)), scq(i)))
    \cup Chk("C10.D0", \A i \in 1..nq, r \in 1..R : NEq(Q[i], "0.0") => Agrees(At2(o.Dq, i, r), "1.0", "1.0"))
    \cup Chk("C07.spectrum", \A i \in 1..nq, r \in 1..R :
            /\ Agrees(At2(o.Dq, i, r), NAdd("1.0", ScaleSlope(TLCEval([j \in 1..J |-> At3(o.U, j, i, r)]), rec.j1, rec.j2, W(r))), scq(i))
            /\ Agrees(At2(o.hq, i, r), ScaleSlope(TLCEval([j \in 1..J |-> At3(o.V, j, i, r)]), rec.j1, rec.j2, W(r)), sc))
    \cup JudgeHeader(rec, V)

(* --------------------------------- hmin ---------------------------------- *)
JudgeHmin(rec) ==
    LET o == rec.out  R == rec.R  V == ValidOf(rec.mrq.v, R)  nJ == rec.j2 - rec.j1 + 1
        Y(r) == TLCEval([i \in 1..rec.j2 |-> IF i < rec.j1 THEN "0.0" ELSE LogSup(V[i][r])])
        W(r) == Weights(V, r, rec.j1, rec.j2, rec.weighted)
    IN
    IF ~(IsVec(o.slope, R) /\ IsVec(o.intercept, R)) THEN {"C11.shape"} ELSE
    Chk("C11.slope", \A r \in 1..R : Agrees(o.slope.d[r], ScaleSlope(Y(r), rec.j1, rec.j2, W(r)), NAdd("1.0", FMag(Y(r)))))
    \cup Chk("C11.intercept", \A r \in 1..R : Agrees(o.intercept.d[r], ScaleIntercept(Y(r), rec.j1, rec.j2, W(r)), NAdd("1.0", FMag(Y(r)))))
    \cup (IF IsNone(o.y) THEN {} ELSE Chk("C11.y", HasShape(o.y, <<nJ, R>>) /\
            \A i \in 1..nJ, r \in 1..R : Agrees(At2(o.y, i, r), Y(r)[rec.j1 + i - 1], "1.0")))
    \cup (IF IsNone(o.y) THEN {} ELSE IF ~HasShape(o.y, <<nJ, R>>) THEN {} ELSE
          Chk("C07.hmin", \A r \in 1..R : Agrees(o.slope.d[r], Slope(Scales(rec.j1, rec.j2), Col(o.y, r), W(r)), FMag(o.y.d))))

(* ---------------------------- compute_hurst ------------------------------ *)
JudgeHurst(rec) ==
    LET o == rec.out  R == rec.R  V == ValidOf(rec.mrq.v, R)  J == Len(V)
        Y(r) == TLCEval([j \in 1..J |-> NLog2(S(V[j][r], 2))])
        W(r) == Weights(V, r, rec.j1, rec.j2, rec.weighted)
    IN
    IF ~(IsVec(o.hurst, R) /\ HasShape(o.logS, <<J, R>>)) THEN {"C08.hurst.shape"} ELSE
    Chk("C08.hurst", \A r \in 1..R : Agrees(o.hurst.d[r], NDiv(ScaleSlope(Y(r), rec.j1, rec.j2, W(r)), 2), NAdd("1.0", FMag(Y(r)))))
    \cup Chk("C08.hurst.logS", \A j \in 1..J, r \in 1..R : Agrees(At2(o.logS, j, r), Y(r)[j], "1.0"))

Judge(rec) ==
    IF rec.raised # "" THEN {rec.prop \o ".raised." \o rec.op \o "." \o rec.raised}
    ELSE IF rec.op = "linreg" THEN JudgeLinreg(rec)
    ELSE IF rec.op = "structure" THEN JudgeStructure(rec)
    ELSE IF rec.op = "cumulants" THEN JudgeCumulants(rec)
    ELSE IF rec.op = "spectrum" THEN JudgeSpectrum(rec)
    ELSE IF rec.op = "hmin" THEN JudgeHmin(rec)
    ELSE IF rec.op = "hurst" THEN JudgeHurst(rec)
    ELSE Assert(FALSE, rec.op)

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN PrintT("REC " \o ToString(l) \o " " \o ToJson(v))
        /\ l' = l + 1
=============================================================================
