------------------------------ MODULE Gen_Repr ------------------------------
(* Prints the configurations, for the harness to execute. *)
EXTENDS Repr, Json, TLC
VARIABLE done
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ \A c \in Configs : PrintT("CFG " \o ToJson(c))
=============================================================================
