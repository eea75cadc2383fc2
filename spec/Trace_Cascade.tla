---------------------------- MODULE Trace_Cascade ----------------------------
(***************************************************************************)
(* Conformance of wavelet_analysis with Cascade.tla.  A record is one real *)
(* call; its scales are replayed through the actions of Cascade, and after *)
(* each one the logged coefficients and leaders of that scale are judged.  *)
(* The cascade then continues from the *logged* coefficients (bound to the *)
(* specification's variable) where these have the right shape, so that     *)
(* leaders are judged against the coefficients actually reported.          *)
(***************************************************************************)
EXTENDS Cascade, Regression, Json, IOUtils
\* read once: TLC re-evaluates a definition, not a register
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
VARIABLES l, bad
tvars == <<req, low, j, coefs, tree, leaders, phase, top, l, bad>>

rec == Trace[l]
out == rec.out
InitT == CIdle /\ l = 1 /\ bad = {}

Request(r) == [n |-> r.n, R |-> r.R, L |-> Len(r.hi), hi |-> Rev(NScaleSeq(r.hi, -1)), lo |-> Rev(r.lo),
               form |-> r.form, p |-> r.p, norm |-> r.norm, gamint |-> r.gamint,
               maxlevel |-> IF MaxLevel(r.n, Len(r.hi)) < 0 THEN 0 ELSE MaxLevel(r.n, Len(r.hi))]
Signal(r) == TLCEval([i \in 1..r.R |-> TLCEval(Col(r.signal, i))])

Load == /\ l <= Len(Trace) /\ phase = "idle"
        /\ \E q \in {Request(rec)} : \E s \in {Signal(rec)} : Start(q, s)
        /\ bad' = IF rec.raised # "" THEN {"C03.raised." \o rec.raised} ELSE {}
        /\ l' = l

\* logged scale k of a quantity
Has(q, k) == Len(q.v) >= k
Logged(q, k, n) == IF Has(q, k) /\ HasShape(q.v[k], <<n, req.R>>)
                   THEN [ok |-> TRUE, c |-> TLCEval([r \in 1..req.R |-> TLCEval(Col(q.v[k], r))])]
                   ELSE [ok |-> FALSE, c |-> <<>>]
\* magnitude of the terms summed by the filter
DetScale(r) == NMul(NMul(NAdd("1.0E-300", NMag(low[r])), NSum(NAbsSeq(req.hi))), ScaleFactor(j + 1, req.norm, req.gamint))

JudgeCoefs(det, lg) ==
    LET k == j + 1  n == Len(det[1]) IN
    Chk("C01.length." \o ToString(k), lg.ok)
    \cup IF ~lg.ok THEN {} ELSE
        Chk("C01.mask." \o ToString(k), \A r \in 1..req.R : \A i \in 1..n : IsNaN(lg.c[r][i]) = IsNaN(det[r][i]))
        \cup Chk("C02.value." \o ToString(k), \A r \in 1..req.R : LET sc == DetScale(r) IN
                 \A i \in 1..n : IsNaN(lg.c[r][i]) \/ IsNaN(det[r][i])
                                 \/ NNearTol(lg.c[r][i], det[r][i], sc, "1.0E-11"))
        \cup Chk("C01.nj." \o ToString(k), IsVec(out.coefs.nj[k], req.R) /\ \A r \in 1..req.R :
                 NEq(out.coefs.nj[k].d[r], ValidCount(lg.c[r])))

\* leaders of scale k; p-leaders are compared after undoing the correction the
\* specification prescribes for the eta_p the call returned
Corrected == /\ req.form = "wavelet p-leader" /\ IsVec(out.eta, req.R)
             /\ \A r \in 1..req.R : ~NLeq(out.eta.d[r], "0.0")
\* eta_p has no value (checked against the specification in JudgeEta) for a realisation all
\* of whose coefficients vanish at some scale: there is no correction to apply to it
Defined(r) == ~(req.form = "wavelet p-leader" /\ IsVec(out.eta, req.R) /\ IsNaN(out.eta.d[r]))
Cor(r, k) == IF Corrected THEN Correction(out.eta.d[r], req.p, k) ELSE "1.0"
LProp == IF req.form = "wavelet p-leader" THEN "C05" ELSE "C04"
JudgeLeaders(ld) ==
    LET k == j + 1  n == Len(ld[1])  lg == Logged(out.leaders, k, n) IN
    Chk(LProp \o ".length." \o ToString(k), lg.ok)
    \cup IF ~lg.ok THEN {} ELSE
        Chk(LProp \o ".mask." \o ToString(k), \A r \in 1..req.R : Defined(r) => \A i \in 1..n : IsNaN(lg.c[r][i]) = IsNaN(ld[r][i]))
        \cup Chk(LProp \o ".value." \o ToString(k), \A r \in 1..req.R : Defined(r) => LET c == Cor(r, k) IN
                 \A i \in 1..n : IsNaN(lg.c[r][i]) \/ IsNaN(ld[r][i]) \/ NNear(lg.c[r][i], NMul(ld[r][i], c), "0.0"))
        \cup Chk("C01.nj.leaders." \o ToString(k), IsVec(out.leaders.nj[k], req.R) /\ \A r \in 1..req.R : Defined(r) =>
                 NEq(out.leaders.nj[k].d[r], ValidCount(lg.c[r])))

\* `\E x \in {e}` binds x to the value of e, evaluated once (TLC re-evaluates
\* the LET definitions of an action at every use)
Step ==
    /\ l <= Len(Trace) /\ CanScale
    /\ \E det \in {NextDetail} :
       \E lg \in {Logged(out.coefs, j + 1, Len(det[1]))} :
       \E use \in {IF lg.ok /\ \A r \in 1..req.R : \A i \in 1..Len(det[r]) : IsNaN(lg.c[r][i]) = IsNaN(det[r][i])
                   THEN lg.c ELSE det} :
       \E tr \in {TreeOf(use)} :
       \E ld \in {LeadersOf(tr)} :
       \E judged \in {JudgeCoefs(det, lg)} :
          \* decided on the specification's own masks
          \/ /\ StopAtCoefs(det)
             /\ bad' = bad \cup Chk("C03.coefs.stop", ~Has(out.coefs, j + 1))
          \/ /\ StopAtLeaders(use, tr, ld)
             /\ bad' = bad \cup Chk("C03.coefs.missing", Has(out.coefs, j + 1)) \cup judged
                       \cup Chk("C03.leaders.stop", ~Has(out.leaders, j + 1))
          \/ /\ Scale(use, NextLow, tr, ld)
             /\ bad' = bad \cup Chk("C03.coefs.missing", Has(out.coefs, j + 1)) \cup judged
                       \cup (IF ~WithLeaders THEN {}
                             ELSE Chk("C03.leaders.missing", Has(out.leaders, j + 1)) \cup JudgeLeaders(ld))
    /\ l' = l

StepEnd == /\ l <= Len(Trace) /\ Exhausted /\ UNCHANGED <<l, bad>>

\* eta_p: slope over j1..j2_eff of log2 of the mean |d|^p of the reported coefs
EtaOf(r) == LET vals == [k \in 1..Len(coefs) |-> NValid(coefs[k][r])]
                y == TLCEval([k \in 1..Len(coefs) |->
                        NLog2(NDiv(NSum(NPowSeq(NAbsSeq(vals[k]), req.p)), Len(vals[k])))])
                j2e == EffectiveJ2(top, rec.j2)
                w == IF rec.weighted THEN SubSeq([k \in 1..Len(coefs) |-> Len(vals[k])], rec.j1, j2e)
                     ELSE Ones(j2e - rec.j1 + 1)
            IN [eta |-> ScaleSlope(y, rec.j1, j2e, w), mag |-> NMag(y)]
JudgeEta ==
    IF req.form # "wavelet p-leader" THEN Chk("C05.eta.none", IsNone(out.eta))
    ELSE IF ~IsVec(out.eta, req.R) THEN {"C05.eta.shape"}
    ELSE Chk("C05.eta.value", \A r \in 1..req.R : LET e == EtaOf(r) IN NNear(out.eta.d[r], e.eta, e.mag))
         \cup Chk("C05.eta.warning", rec.userwarnings =
                 (IF \E r \in 1..req.R : NLeq(out.eta.d[r], "0.0") THEN 1 ELSE 0)
                 + (IF rec.j2 # "none" /\ NLt(req.maxlevel, rec.j2) THEN 1 ELSE 0))

\* everything beyond the scales of the specification must be absent
Close ==
    /\ l <= Len(Trace) /\ phase = "stopped"
    /\ \E v \in {IF rec.raised # "" THEN bad ELSE bad
               \cup Chk("C03.coefs.range", out.coefs.keys = [k \in 1..Len(coefs) |-> k])
               \cup (IF WithLeaders THEN Chk("C03.leaders.range", out.leaders.keys = [k \in 1..Len(leaders) |-> k])
                     ELSE Chk("C03.leaders.none", out.leaders.k = "none"))
               \cup Chk("C03.j2_eff", IsScalar(out.j2_eff) /\ NEq(Sc(out.j2_eff), EffectiveJ2(top, rec.j2)))
               \cup Chk("C03.decomposition_level", IsScalar(rec.dlevel) /\ NEq(Sc(rec.dlevel), MaxLevel(rec.n, req.L)))
               \cup Chk("C14.mrq.formalism", out.coefs.formalism = "wavelet coef"
                                             /\ (WithLeaders => out.leaders.formalism = req.form))
               \cup Chk("C14.mrq.gamint", IsScalar(out.coefs.gamint) /\ NEq(Sc(out.coefs.gamint), req.gamint)
                                          /\ (WithLeaders => IsScalar(out.leaders.gamint) /\ NEq(Sc(out.leaders.gamint), req.gamint)))
               \cup JudgeEta} :
          PrintT("REC " \o ToString(l) \o " " \o ToJson(v))
    /\ l' = l + 1
    /\ req' = <<>> /\ low' = <<>> /\ j' = 0 /\ coefs' = <<>> /\ tree' = <<>> /\ leaders' = <<>>
    /\ phase' = "idle" /\ top' = 0 /\ bad' = {}

Next == Load \/ Step \/ StepEnd \/ Close
=============================================================================
