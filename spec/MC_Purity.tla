------------------------------ MODULE MC_Purity ------------------------------
(***************************************************************************)
(* Design level: in every history of calls on shared objects, if each step *)
(* leaves its arguments alone and returns the denotation of the call, then *)
(* every object keeps the value it was created with and repeated calls     *)
(* agree.  Bug selects an implementation that does not:                    *)
(*  "inplace"  : the call changes its argument                             *)
(*  "alias"    : the call returns its argument itself, a later call        *)
(*               updates its own earlier result in place                   *)
(*  "state"    : results depend on a hidden counter                        *)
(*  "sticky"   : the first result of a function is kept and returned again *)
(*               for other arguments of the same shape                     *)
(*  "ambient"  : the call changes a setting of the process, which other    *)
(*               calls (and the caller) read                               *)
(* Kept speaks about denotations, which a replay cannot see.  What it sees *)
(* is Unmutated, Same, Fresh and Settled; Seen shows that for all of these          *)
(* implementations they are violated no later than Kept is.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Bug, Depth
VARIABLES heap,     \* object -> cell
          cell,     \* cell -> value
          birth,    \* object -> its value when it was created
          term,     \* object -> the term it denotes
          memo, n,
          amb       \* settings of the process the caller has made
vars == <<heap, cell, birth, term, memo, n, amb>>
Init == /\ heap = <<1, 2>> /\ cell = <<"x", "y">> /\ birth = <<"x", "y">> /\ term = <<"x", "y">>
        /\ memo = << >> /\ n = 0 /\ amb = 0
Apply(f, v) == f \o "(" \o v \o ")"
\* what the implementation answers after the history m, in the state k
Answer(f, v, m, k, a) ==
    LET before == {i \in 1..Len(m) : m[i].f = f} IN
    IF Bug = "sticky" /\ before # {} THEN m[CHOOSE i \in before : \A j \in before : i <= j].r
    ELSE Apply(f, v) \o (IF (Bug = "state" /\ k % 2 = 1) \/ a = 1 THEN "'" ELSE "")
Call(f, o) ==
    LET v == cell[heap[o]]
        r == Answer(f, v, memo, n, amb)
    IN /\ n' = n + 1
       /\ CASE Bug = "inplace" /\ f = "g" -> /\ cell' = Append([cell EXCEPT ![heap[o]] = r], r)
                                             /\ heap' = Append(heap, Len(cell) + 1)
            [] Bug = "alias" /\ f = "g" -> /\ cell' = [cell EXCEPT ![heap[o]] = r]
                                           /\ heap' = Append(heap, heap[o])
            [] OTHER -> cell' = Append(cell, r) /\ heap' = Append(heap, Len(cell) + 1)
       /\ birth' = Append(birth, r)
       /\ term' = Append(term, Apply(f, term[o]))
       /\ memo' = Append(memo, [f |-> f, k |-> <<f, v>>, r |-> r, fresh |-> Answer(f, v, << >>, 0, 0)])
       /\ amb' = IF Bug = "ambient" /\ f = "g" THEN 1 ELSE amb
Next == n < Depth /\ \E f \in {"f", "g"}, o \in 1..Len(heap) : Call(f, o)
Kept == \A o \in 1..Len(heap) : cell[heap[o]] = term[o]
Unmutated == \A o \in 1..Len(heap) : cell[heap[o]] = birth[o]
Same == \A i, j \in 1..Len(memo) : memo[i].k = memo[j].k => memo[i].r = memo[j].r
Fresh == \A i \in 1..Len(memo) : memo[i].r = memo[i].fresh
Settled == amb = 0
Seen == Kept \/ ~(Unmutated /\ Same /\ Fresh /\ Settled)
=============================================================================
