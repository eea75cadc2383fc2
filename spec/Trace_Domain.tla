---------------------------- MODULE Trace_Domain ----------------------------
(***************************************************************************)
(* A record: [req, raised, warns, facts]                                   *)
(*   warns : categories of the warnings issued (deprecation notices of     *)
(*           dependencies left out)                                        *)
(*   facts : what was observed that decides the class or the answer        *)
(*     wavelet: eta (tensor), j2_eff, j2, M (levels of the length)         *)
(*     hmin   : values (one tensor per estimate: coefficients, leaders)    *)
(***************************************************************************)
EXTENDS Domain, Tensor, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
VARIABLE l

Some(t, P(_)) == IsT(t) /\ \E i \in 1..Len(t.d) : P(t.d[i])
Leq0(x) == NLeq(x, "0.0")
Lt0(x) == NLt(x, "0.0")
Eq0(x) == NEq(x, "0.0")
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})

\* the least and the largest number of warnings the contract allows; facts
\* about the data (the signs of eta_p and of the estimates of h_min) come
\* from what was returned
Must(r) ==
    CASE r.req.op = "wavelet" ->
           (IF Above(r.req) THEN 1 ELSE 0) + (IF r.req.p = "finite" /\ Some(r.facts.eta, Leq0) THEN 1 ELSE 0)
      [] r.req.op = "hmin" ->
           IF r.req.warn = "no" THEN 0 ELSE Cardinality({i \in 1..Len(r.facts.values) : Some(r.facts.values[i], Lt0)})
      [] OTHER -> Cardinality(Warns(r.req))
May(r) ==
    CASE r.req.op = "hmin" -> IF r.req.warn = "no" THEN 0 ELSE Cardinality({i \in 1..Len(r.facts.values) : Some(r.facts.values[i], Eq0)})
      [] OTHER -> Cardinality(Free(r.req))

Warned(r) ==
    LET n == Count(r.warns, "UserWarning") IN
    Chk(r.req.op \o ".silent", n >= Must(r))
    \cup Chk(r.req.op \o ".warning", n <= Must(r) + May(r))
    \cup Chk(r.req.op \o ".otherwarning", n = Len(r.warns) \/ Free(r.req) # {})

Answer(r) ==
    IF r.req.op # "wavelet" THEN {}
    ELSE Chk("wavelet.notclamped", IsScalar(r.facts.j2_eff) /\ NLeq(Sc(r.facts.j2_eff), r.facts.M)
                                   /\ (IsFinite(r.facts.j2) => NLeq(Sc(r.facts.j2_eff), r.facts.j2)))

Judge(r) ==
    {"C25." \o c : c \in
     IF Refused(r.req) THEN Chk(r.req.op \o ".accepted", r.raised # "")
     ELSE IF r.raised # "" THEN {r.req.op \o ".raised." \o r.raised}
     ELSE Warned(r) \cup Answer(r)}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN PrintT("REC " \o ToString(l) \o " " \o ToJson(v))
        /\ l' = l + 1
=============================================================================
