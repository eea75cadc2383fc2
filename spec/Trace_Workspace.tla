--------------------------- MODULE Trace_Workspace ---------------------------
(***************************************************************************)
(* Replays a recorded history of a Signal object on the Workspace machine. *)
(* record: [steps |-> <<[call, res, held, pre]>>, oracle |-> token -> v,   *)
(*          table |-> values]; res, held.x and oracle[t] index the table.  *)
(* A value: [k |-> "val"|"exc"|"none", e |-> structure, d |-> numbers]     *)
(***************************************************************************)
EXTENDS Workspace, Tensor, FiniteSets, Json, IOUtils
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(1)
VARIABLES l, k, st, bad
vars == <<l, k, st, bad>>

Same(rec, i, j) == \/ i = j
                   \/ LET a == rec.table[i]  b == rec.table[j] IN
                      /\ a.k = b.k /\ a.e = b.e
                      /\ NearSeqTol(a.d, b.d, NAdd("1.0", NMag(b.d)), "1.0E-9")
Fails(t) == LET rec == Trace[l] IN t \in DOMAIN rec.oracle /\ rec.table[rec.oracle[t]].k = "exc"
JudgeStep(rec, s, st1, st2) ==
    LET c == s.call  t == Result(st1, c)  h == Held(st2)
        r == rec.table[s.res]
    IN (IF t = "AttributeError" THEN Chk("return." \o c.op \o ".beforewavelet", r.k = "exc" /\ r.e = "AttributeError")
        ELSE IF t = "nothing" THEN Chk("return." \o c.op, r.k = "none")
        ELSE Chk("return." \o c.op, Same(rec, s.res, rec.oracle[t])))
       \cup UNION {Chk("held." \o x \o ".after." \o c.op,
                       IF h[x] = None THEN rec.table[s.held[x]].k = "none" ELSE Same(rec, s.held[x], rec.oracle[h[x]]))
                   : x \in DOMAIN h}
\* the difference of the PSDs of two objects, on their common frequencies
JudgeDiff(rec) ==
    LET J == IF Len(rec.f1.d) < Len(rec.f2.d) THEN Len(rec.f1.d) ELSE Len(rec.f2.d)
        common == {i \in 1..Len(rec.f1.d) : \E j \in 1..Len(rec.f2.d) : NEq(rec.f1.d[i], rec.f2.d[j])}
        \* frequencies decrease with the scale; the difference is reported in increasing order
        n == Len(rec.f.d)
        Src(f, s) == CHOOSE i \in 1..Len(s.d) : NEq(s.d[i], f)
    IN IF rec.raised # "" THEN {"psd_difference.raised." \o rec.raised}
       ELSE Chk("psd_difference.freq", n = Cardinality(common) /\ (\A i \in 1..(n - 1) : NLt(rec.f.d[i], rec.f.d[i + 1]))
                /\ \A i \in 1..n : \E j \in common : NEq(rec.f.d[i], rec.f1.d[j]))
            \cup (IF rec.log THEN
                    \* exp(a - b - min(a - b) + 0.1)
                    LET d == [i \in 1..n |-> NSub(NLn(rec.p1.d[Src(rec.f.d[i], rec.f1)]), NLn(rec.p2.d[Src(rec.f.d[i], rec.f2)]))]
                        m == NNeg(NMaxSeq([i \in 1..n |-> NNeg(d[i])]))
                    IN Chk("psd_difference.log", Len(rec.p.d) = n /\ \A i \in 1..n : NNear(rec.p.d[i], NExp(NAdd(NSub(d[i], m), "0.1")), "0.0"))
                  ELSE Chk("psd_difference.psd", Len(rec.p.d) = n /\ \A i \in 1..n :
                           NNear(rec.p.d[i], NSub(rec.p1.d[Src(rec.f.d[i], rec.f1)], rec.p2.d[Src(rec.f.d[i], rec.f2)]), "0.0")))
            \cup Chk("psd_difference.fs", SameT(rec.fs, rec.fs1))

Init == l = 1 /\ k = 1 /\ st = S0 /\ bad = {}
Step == /\ l <= Len(Trace)
        /\ Trace[l].op = "history"
        /\ k <= Len(Trace[l].steps)
        /\ LET s == Trace[l].steps[k] IN
           \E st2 \in {Next2(st, s.call, Fails)} : st' = st2 /\ bad' = bad \cup JudgeStep(Trace[l], s, st, st2)
        /\ k' = k + 1 /\ UNCHANGED l
End == /\ l <= Len(Trace)
       /\ Trace[l].op = "history"
       /\ k > Len(Trace[l].steps)
       /\ PrintT("REC " \o ToString(l) \o " " \o ToJson(bad))
       /\ l' = l + 1 /\ k' = 1 /\ st' = S0 /\ bad' = {}
Diff == /\ l <= Len(Trace)
        /\ Trace[l].op = "diff"
        /\ PrintT("REC " \o ToString(l) \o " " \o ToJson(JudgeDiff(Trace[l])))
        /\ l' = l + 1 /\ UNCHANGED <<k, st, bad>>
Next == Step \/ End \/ Diff
=============================================================================
