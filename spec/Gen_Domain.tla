----------------------------- MODULE Gen_Domain -----------------------------
(* Checks the domain model and prints every request class, for the harness. *)
EXTENDS Domain, Sequences, Json, TLC
VARIABLE done
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ Assert(TypeOK, "TypeOK") /\ Assert(BothSides, "BothSides") /\ Assert(Monotone, "Monotone")
        /\ \A r \in Requests : PrintT("REQ " \o ToJson(r))
=============================================================================
