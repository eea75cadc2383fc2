--------------------------- MODULE Trace_Contract ---------------------------
(***************************************************************************)
(* A record: [cfg, raised, out, ref, coefs, leaders]                       *)
(*   out.dwt, out.lwt : [k |-> "none" | "var", f |-> field name -> object] *)
(*   an object: [k |-> "none" | "obj" | "exc", f |-> attribute -> tensor,  *)
(*               formalism]                                                *)
(*   ref: the objects the estimators return when called directly on the    *)
(*   quantities of wavelet_analysis with the same parameters.              *)
(***************************************************************************)
EXTENDS Contract, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
VARIABLE l

Mag(t) == IF IsT(t) THEN NMag(SelectSeq(t.d, LAMBDA x : IsFinite(x))) ELSE "0.0"
SameAttr(a, b) == NearTTol(a, b, NAdd("1.0", Mag(b)), "1.0E-9")
\* RHO_MF and rho_mf are quotients by variances (resp. by slopes of variances):
\* their rounding errors grow with the size of the logarithms over that of the
\* denominator, and where the denominator is rounding noise (a quantity which is
\* constant at a scale) they carry no information
Mid(f) == LET x == NAdd("1.0", Mag(f.values)) IN x
RhoAt(f, a, b, i) ==
    LET K == f.values.sh[1]  J == f.values.sh[3]
        v == NMul(f.values.d[2 * K * J + i], f.values.d[2 * J + i])
        big == NMul(NMul(Mid(f), Mid(f)), NMul(Mid(f), Mid(f)))
    IN NLeq(v, NMul("1.0E-11", big)) \/ NNearTol(a, b, NAdd("1.0", NDiv(big, v)), "1.0E-9")
SameRho(x, a, b, f) ==
    IF ~(IsT(a) /\ IsT(b) /\ a.sh = b.sh /\ IsT(f.values) /\ Len(f.values.sh) = 3 /\ f.values.sh[1] > 2) THEN SameAttr(a, b)
    ELSE IF x = "RHO_MF" /\ a.sh = <<f.values.sh[3]>> THEN \A i \in 1..Len(a.d) : RhoAt(f, a.d[i], b.d[i], i)
    ELSE IF x = "rho_mf" /\ IsT(f.log_cumulants) /\ Len(f.log_cumulants.d) = f.values.sh[1] * f.values.sh[1]
    THEN LET K == f.values.sh[1]
             v == NAbs(NMul(f.log_cumulants.d[2 * K + 1], f.log_cumulants.d[3]))
             big == NMul(NMul(Mid(f), Mid(f)), NMul(Mid(f), Mid(f)))
         IN NLeq(v, NMul("1.0E-11", big)) \/ \A i \in 1..Len(a.d) : NNearTol(a.d[i], b.d[i], NAdd("1.0", NDiv(big, v)), "1.0E-9")
    ELSE SameAttr(a, b)
Same(x, a, b, f) == IF x \in {"RHO_MF", "rho_mf"} THEN SameRho(x, a, b, f) ELSE SameAttr(a, b)
SameObj(tag, a, b) ==
    IF a.k # "obj" \/ b.k # "obj" THEN Chk(tag \o "." \o a.k, a.k = "obj")
    ELSE UNION {Chk(tag \o "." \o x, x \in DOMAIN a.f /\ Same(x, a.f[x], b.f[x], b.f)) : x \in DOMAIN b.f}
         \cup Chk(tag \o ".formalism", a.formalism = b.formalism)
\* the object describes the quantity it was computed from
Header(tag, o, m) ==
    IF o.k # "obj" THEN {}
    ELSE Chk(tag \o ".j", IsT(o.f.j) /\ o.f.j.sh = <<Len(m.keys)>> /\ \A i \in 1..Len(m.keys) : NEq(o.f.j.d[i], m.keys[i]))
         \cup Chk(tag \o ".formalism", o.formalism = m.formalism)
         \cup Chk(tag \o ".nj", Len(o.nj) = Len(m.nj) /\ \A i \in 1..Len(m.nj) : SameT(o.nj[i], m.nj[i]))

Fields == <<"structure", "cumulants", "spectrum", "hmin">>
JudgeVar(tag, v, rf, ex, m) ==
    UNION {LET f == Fields[i] IN
           IF ~ex[f] THEN Chk(tag \o "." \o f \o ".filled", v.f[f].k = "none")
           ELSE SameObj(tag \o "." \o f, v.f[f], rf.f[f])
                \cup (IF f = "hmin" THEN {} ELSE Header(tag \o "." \o f, v.f[f], m)
                      \cup (IF v.f[f].k = "obj" THEN Chk(tag \o "." \o f \o ".nrep", SameT(v.f[f].f.nrep, m.nrep)) ELSE {}))
           : i \in 1..4}

JudgeUni(r) ==
    LET c == r.cfg  e == Expect(c) IN
    Chk("dwt.missing", r.out.dwt.k = "var")
    \cup (IF r.out.dwt.k # "var" THEN {} ELSE JudgeVar("dwt", r.out.dwt, r.ref.dwt, e.dwt_fields, r.coefs))
    \cup (IF ~e.lwt THEN Chk("lwt.none", r.out.lwt.k = "none")
          ELSE IF r.out.lwt.k # "var" THEN {"lwt.missing"}
          ELSE JudgeVar("lwt", r.out.lwt, r.ref.lwt, e.lwt_fields, r.leaders))
    \cup (IF r.out.dwt.k = "var" /\ r.out.dwt.f["structure"].k = "obj"
          THEN LET s == r.out.dwt.f["structure"] IN
               Chk("dwt.structure.H.none", IsNone(s.f.H) = ~HasTwo(c))
               \cup Chk("dwt.structure.q", IsT(s.f.q) /\ SameSeq(s.f.q.d, r.qexp.d))
               \cup Chk("dwt.structure.gamint", SameT(s.f.gamint, r.coefs.gamint))
          ELSE {})

BiFields == <<"structure", "cumulants">>
JudgeBiVar(tag, v, rf, m) ==
    UNION {LET f == BiFields[i] IN SameObj(tag \o "." \o f, v.f[f], rf.f[f]) \cup Header(tag \o "." \o f, v.f[f], m) : i \in 1..2}
JudgeBi(r) ==
    LET c == r.cfg IN
    IF r.out.dwt.k # "var" THEN {"dwt.missing"}
    ELSE JudgeBiVar("dwt", r.out.dwt, r.ref.dwt, r.coefs)
         \cup (IF c.p = "none" THEN Chk("lwt.none", r.out.lwt.k = "none")
               ELSE IF r.out.lwt.k # "var" THEN {"lwt.missing"}
               ELSE JudgeBiVar("lwt", r.out.lwt, r.ref.lwt, r.leaders))
         \cup (LET s == r.out.dwt.f["structure"] IN IF s.k # "obj" THEN {} ELSE
               Chk("coherence.none", IsNone(s.f.coherence) = ~BiHasCoherence(c))
               \cup Chk("q1", IsT(s.f.q1) /\ SameSeq(s.f.q1.d, r.q1exp.d))
               \cup Chk("q2", IsT(s.f.q2) /\ SameSeq(s.f.q2.d, r.q2exp.d))
               \cup Chk("j2", SameT(s.f.j2, r.j2exp)))

\* a request that combines quantities which do not match: it must be refused
JudgeReject(r) == Chk("accepted." \o r.what, r.raised # "")

Judge(r) ==
    {r.prop \o "." \o c : c \in
        IF r.op = "reject" THEN JudgeReject(r)
        ELSE IF r.raised # "" THEN {"raised." \o r.raised}
        ELSE IF r.op = "uni" THEN JudgeUni(r)
        ELSE JudgeBi(r)}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN PrintT("REC " \o ToString(l) \o " " \o ToJson(v))
        /\ l' = l + 1
=============================================================================
