---------------------------- MODULE Trace_Purity ----------------------------
(***************************************************************************)
(* A record is one history: events as in Purity.tla, values interned.      *)
(*   exact  : the bytes of the objects after the call                      *)
(*   cls    : values of the objects (numbers up to rounding) at creation   *)
(* One TLC state per event: heap, memo and the verdicts of the history.    *)
(***************************************************************************)
EXTENDS Purity, Tensor, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
VARIABLES l, k, exact, cls, memo, bad

Start(i) == /\ l = i /\ k = 1
            /\ exact = IF i <= Len(Trace) THEN Trace[i].exact0 ELSE <<>>
            /\ cls = IF i <= Len(Trace) THEN Trace[i].cls0 ELSE <<>>
            /\ memo = <<>> /\ bad = {}
Init == Start(1)
Event(e) ==
    LET key == TLCEval(Key(e, cls))
        known == key \in DOMAIN memo
    IN /\ bad' = bad \cup Chk("C24.mutated." \o e.op, \A i \in 1..Len(exact) : e.exact1[i] = exact[i])
                     \cup Chk("C24.rng." \o e.op, RngKept(e))
                     \cup Chk("C24.ambient." \o e.op, AmbientKept(e))
                     \cup Chk("C24.history." \o e.op, FreshResult(e))
                     \cup Chk("C24.historyrng." \o e.op, FreshRng(e))
                     \cup Chk("C24.stuck." \o e.op, Advances(e))
                     \cup Chk("C24.unrepeatable." \o e.op, known => memo[key].res = e.res)
                     \cup Chk("C24.consumption." \o e.op, known /\ Ops[e.op].rng => memo[key].rng1 = e.rng1)
       /\ exact' = e.exact1
       /\ cls' = Append(cls, e.res)
       /\ memo' = IF known THEN memo ELSE (key :> [res |-> e.res, rng1 |-> e.rng1]) @@ memo
Next == /\ l <= Len(Trace)
        /\ IF k <= Len(Trace[l].events)
           THEN /\ Event(Trace[l].events[k]) /\ k' = k + 1 /\ l' = l
           ELSE /\ PrintT("REC " \o ToString(l) \o " " \o ToJson(bad))
                /\ l' = l + 1 /\ k' = 1 /\ memo' = <<>> /\ bad' = {}
                /\ exact' = IF l + 1 <= Len(Trace) THEN Trace[l + 1].exact0 ELSE <<>>
                /\ cls' = IF l + 1 <= Len(Trace) THEN Trace[l + 1].cls0 ELSE <<>>
=============================================================================
