----------------------------- MODULE Gen_Purity -----------------------------
(***************************************************************************)
(* Histories to replay (TLC -simulate).  A step calls an operation on      *)
(* objects available so far, repeats an earlier step (on the same objects, *)
(* on copies, in the same random state), or draws from the random state.   *)
(***************************************************************************)
EXTENDS Purity, Json, TLC, Randomization, IOUtils
VARIABLES h, kinds, focus
Depth == atoi(IOEnv.DEPTH)
\* a history concentrates on a few operations, so that objects are shared
Init == /\ h = <<>> /\ kinds = Initial
        /\ focus \in {RandomSubset(22, OpNames) \cup {"wavelet", "coefs", "leaders"} : i \in 1..300}
Of(k) == {i \in 1..Len(kinds) : kinds[i] = k}
Ready(o) == \A i \in 1..Len(Ops[o].args) : Of(Ops[o].args[i]) # {}
\* recent objects and initial ones alike
Pick(T) == RandomElement(T)
NewCall(o) == /\ Ready(o)
              /\ h' = Append(h, [op |-> o, p |-> Pick(Params), rep |-> 0, copy |-> FALSE, seed |-> FALSE,
                                 args |-> TLCEval([i \in 1..Len(Ops[o].args) |-> Pick(Of(Ops[o].args[i]))])])
              /\ kinds' = Append(kinds, Ops[o].res)
              /\ UNCHANGED focus
Base == {"sig", "sig2", "q", "arr", "noise", "white", "field", "ql"}
Derived(o) == \E i \in 1..Len(Ops[o].args) : Ops[o].args[i] \notin Base
Fresh(D) == Len(h) < Depth /\ \E o \in {x \in OpNames : Ready(x) /\ (Derived(x) = D) /\ (D \/ x \in focus)} : NewCall(o)
FreshBase == Fresh(FALSE)
FreshDerived1 == Fresh(TRUE)
FreshDerived2 == Fresh(TRUE)
Again == /\ Len(h) < Depth /\ h # <<>>
         /\ \E i \in 1..Len(h) :
               /\ h' = Append(h, [h[i] EXCEPT !.rep = IF h[i].rep = 0 THEN i ELSE h[i].rep,
                                              !.copy = RandomElement(BOOLEAN), !.seed = Ops[h[i].op].rng /\ RandomElement({TRUE, TRUE, FALSE})])
               /\ kinds' = Append(kinds, Ops[h[i].op].res)
               /\ UNCHANGED focus
\* a single last step, so that one behaviour of a simulation is printed once
Done == Len(h) = Depth /\ h' = Append(h, "end") /\ UNCHANGED <<kinds, focus>>
Next == FreshBase \/ FreshDerived1 \/ FreshDerived2 \/ Again \/ Done
Emit == Len(h) <= Depth \/ PrintT("BEH " \o ToJson(SubSeq(h, 1, Depth)))
=============================================================================
