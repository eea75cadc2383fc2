---------------------------- MODULE Gen_Contract ----------------------------
(* Prints every configuration, for the harness to execute. *)
EXTENDS Contract, Json
VARIABLE done
Init == done = FALSE
Next == /\ ~done /\ done' = TRUE
        /\ \A c \in Configs : PrintT("UNI " \o ToJson(c))
        /\ \A c \in BiConfigs : PrintT("BI " \o ToJson(c))
=============================================================================
