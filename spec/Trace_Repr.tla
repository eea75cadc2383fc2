----------------------------- MODULE Trace_Repr -----------------------------
(***************************************************************************)
(* A record is one call made twice: with plain arguments (double precision *)
(* arrays stored by rows, numbers of Python) and with the same numbers in  *)
(* the representations of one configuration of Repr.tla.                   *)
(*   s  : structure of the result (types and names of its parts)           *)
(*   v  : its numbers, array by array                                      *)
(*   ro, rn : the random state after the call                              *)
(***************************************************************************)
EXTENDS Repr, Tensor, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
VARIABLE l

Fewer(r) == Reduced(r.scalar) \/ \E i \in 1..Len(r.reps) : Reduced(r.reps[i])
Magnitude(t) == NAdd(NMag(t.d), IF t.k = "t" THEN "1.0E-300" ELSE "0.0")
\* double precision up to rounding; else up to the digits of the cells, which
\* quotients and powers may lose some of
Agree(r) == \A i \in 1..Len(r.plain.v) :
    LET x == r.plain.v[i]  y == r.other.v[i]
    IN NearTTol(x, y, Magnitude(x), IF Fewer(r) THEN "2.0E-3" ELSE "1.0E-9")
Judge(r) ==
    IF r.plain.raised # "" THEN {"C28.plain." \o r.call \o "." \o r.plain.raised}
    ELSE IF r.other.raised # "" THEN {"C28.raised." \o r.call \o "." \o r.other.raised}
    ELSE Chk("C28.structure." \o r.call, r.plain.s = r.other.s /\ Len(r.plain.v) = Len(r.other.v))
         \cup Chk("C28.value." \o r.call, Len(r.plain.v) = Len(r.other.v) => Agree(r))
         \cup Chk("C28.mutated." \o r.call, \A i \in 1..Len(r.kept) : r.kept[i])
         \cup Chk("C28.rng." \o r.call, r.plain.rng = r.other.rng)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET v == Judge(Trace[l]) IN PrintT("REC " \o ToString(l) \o " " \o ToJson(v))
        /\ l' = l + 1
=============================================================================
