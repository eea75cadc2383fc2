------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* The analysis entry points: which configurations exist and what shape a  *)
(* complete result has for each.  TLC enumerates Configs (Gen_Contract)    *)
(* and every one is executed on the real code; Trace_Contract judges what  *)
(* came back.                                                              *)
(***************************************************************************)
EXTENDS Tensor

\* the leader type requested: p_exp = None, np.inf, or a finite p
PExps == {"none", "inf", "2", "1", "0.5"}
\* the exponents requested: None, or a list / array (with and without 2)
QKinds == {"none", "list", "list_no2", "list_single2", "array", "array_no2", "intarray"}
NCumuls == {1, 2, 3, 5}
Entries == {"full", "full_minimal", "mf", "minimal"}
Configs == [entry : Entries, p : PExps, q : QKinds, M : NCumuls, weighted : BOOLEAN, R : {1, 2}]

IsMinimal(c) == c.entry \in {"full_minimal", "minimal"}
\* presence of each part of the result
Expect(c) == [dwt |-> TRUE, lwt |-> c.p # "none",
              dwt_fields |-> [structure |-> TRUE, cumulants |-> ~IsMinimal(c), spectrum |-> ~IsMinimal(c), hmin |-> ~IsMinimal(c)],
              lwt_fields |-> [structure |-> ~IsMinimal(c), cumulants |-> TRUE, spectrum |-> ~IsMinimal(c), hmin |-> ~IsMinimal(c)]]
\* 2 is always among the exponents unless the caller left it out, so H exists
HasTwo(c) == c.q \notin {"list_no2", "array_no2"}

(* ---- bivariate ---- *)
BiQKinds == {"none", "list", "array", "array_no1", "differ", "swapped", "only1", "only2", "single"}
BiEntries == {"full", "bi"}
BiConfigs == [entry : BiEntries, p : PExps, q : BiQKinds, M : {1, 2, 3, 4}, weighted : BOOLEAN, unequal : BOOLEAN]
BiHasCoherence(c) == c.q \notin {"array_no1", "single"}
=============================================================================
