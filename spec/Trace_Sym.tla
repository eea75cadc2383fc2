------------------------------ MODULE Trace_Sym ------------------------------
(***************************************************************************)
(* Conformance of pairs of real analyses with Symmetries.tla.              *)
(***************************************************************************)
EXTENDS Symmetries, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
VARIABLE l

Both(A, B, map, sh0, sh1, s) ==
    Quantity("coefs", A.coefs, B.coefs, map, sh0, sh1, s) \cup Quantity("leaders", A.leaders, B.leaders, map, sh0, sh1, 1)
    \cup Part("dwt", A.dwt, B.dwt, map, sh0, sh1) \cup Part("lwt", A.lwt, B.lwt, map, sh0, sh1)
    \cup Eta(A, B, map)

\* one attribute of the bivariate estimators; the cumulants of order (a, b)
\* scale as |ln T|^(a+b), and RHO_MF, rho_mf are quotients of small numbers
BiPart(r, a) ==
    LET x == r.A[a]  y == r.B[a] IN
    Chk(a, /\ x.k = y.k /\ x.sh = y.sh /\ x.e = y.e /\ Len(x.d) = Len(y.d)
           /\ \A i \in 1..Len(x.d) : (a = "RHO_MF" /\ ~r.rhook[i]) \/ (a = "rho_mf" /\ ~r.rhomfok) \/ NNearTol(x.d[i], y.d[i], CASE a \in {"RHO_MF", "rho_mf"} -> r.rhoscale
                                                        [] a \in {"C", "c", "cslope", "cint"} -> NAdd(r.cumscale, NAdd(NMag(x.d), "1.0"))
                                                        [] OTHER -> NAdd(NMag(x.d), "1.0"), "1.0E-9"))
Relation(r) ==
    IF r.kind = "amplitude"          \* B = c * A
    THEN Both(r.A, r.B, IdMap(r.A.R), NLog2(NAbs(r.c)), 0, IF NLt(r.c, 0) THEN -1 ELSE 1)
         \cup Chk("j2_eff", SameT(r.A.j2_eff, r.B.j2_eff))
    ELSE IF r.kind = "same"          \* B must give the same results as A
    THEN Both(r.A, r.B, IdMap(r.A.R), 0, 0, 1) \cup Chk("j2_eff", SameT(r.A.j2_eff, r.B.j2_eff))
    ELSE IF r.kind = "gamint"        \* B analysed with gamint increased by g: coefficient based results only
    THEN Quantity("coefs", r.A.coefs, r.B.coefs, IdMap(r.A.R), 0, r.g, 1)
         \cup Part("dwt", r.A.dwt, r.B.dwt, IdMap(r.A.R), 0, r.g)
         \cup Chk("j2_eff", SameT(r.A.j2_eff, r.B.j2_eff))
    ELSE IF r.kind = "column"        \* B: the realisations r.map[1], ... of A analysed on their own
    THEN Both(r.A, r.B, r.map, 0, 0, 1)
    ELSE IF r.kind = "values"        \* two quantities that differ in missing entries and order only
    THEN Part("est", r.A, r.B, IdMap(r.R), 0, 0)
         \cup Chk("nj", Len(r.njA) = Len(r.njB) /\ \A j \in 1..Len(r.njA) : SameT(r.njA[j], r.njB[j]))
    ELSE IF r.kind = "bivalues"      \* two pairs of quantities, extended / reordered jointly
    THEN UNION {BiPart(r, a) : a \in {"logvalues", "zeta", "intercept", "coherence", "C", "c", "cslope", "cint", "RHO_MF", "rho_mf"}}
         \cup Chk("nj", Len(r.njA) = Len(r.njB) /\ \A j \in 1..Len(r.njA) : SameT(r.njA[j], r.njB[j]))
    ELSE Assert(FALSE, r.kind)

Judge(r) == IF r.raised # "" THEN {r.prop \o ".raised." \o r.raised}
            ELSE {r.prop \o "." \o r.kind \o "." \o c : c \in Relation(r)}

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN PrintT("REC " \o ToString(l) \o " " \o ToJson(v))
        /\ l' = l + 1
=============================================================================
