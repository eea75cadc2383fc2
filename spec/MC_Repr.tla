------------------------------- MODULE MC_Repr -------------------------------
(***************************************************************************)
(* Design level: an implementation that reads its argument through the     *)
(* descriptor returns the same result for every storage of the same array, *)
(* and leaves what lies between the cells alone.  Bug selects one that     *)
(*  "memory"  : takes the cells in the order of their addresses            *)
(*  "order"   : takes the bytes of a cell as the machine would write them  *)
(*  "type"    : keeps an intermediate result in the encoding of the input  *)
(*              (here: modulo 4)                                           *)
(*  "through" : uses the storage of its argument as scratch space          *)
(***************************************************************************)
EXTENDS Repr, TLC
CONSTANTS Bug, NN, MM, Top
VARIABLES a,        \* the array: index -> value
          d,        \* descriptor of its storage
          mem,      \* address -> cell
          mem0, res, pc
vars == <<a, d, mem, mem0, res, pc>>
Ix == Index(<<NN, MM>>)
Store(x, y) == [q \in 1..Span(NN, MM) |->
                  IF \E i \in Ix : Address(y, i) = q THEN Encode(y.order, x[CHOOSE i \in Ix : Address(y, i) = q])
                  ELSE <<1, 1>>]
Init == /\ a \in [Ix -> 0..Top]
        /\ \E n \in Layouts, o \in {"little", "big"} :
              d = [first |-> Layout(n, NN, MM).first, step |-> Layout(n, NN, MM).step, sh |-> <<NN, MM>>, order |-> o]
        /\ mem = Store(a, d) /\ mem0 = mem /\ res = <<>> /\ pc = "call"
\* an operation that distinguishes rows, columns and values: sum over the
\* rows of row number times value squared, one number per column
RECURSIVE Sum(_, _, _, _)
Sum(f(_, _), j, i, n) == IF i > n THEN 0 ELSE f(i, j) + Sum(f, j, i + 1, n)
Denote(x) == [j \in 1..MM |-> LET f(i, k) == i * x[<<i, k>>] * x[<<i, k>>] IN Sum(f, j, 1, NN)]
\* the cells in the order of their addresses, as if they were stored by rows
Addresses == {Address(d, i) : i \in Ix}
Nth(k) == CHOOSE q \in Addresses : Cardinality({r \in Addresses : r < q}) = k - 1
Read(i) ==
    LET q == IF Bug = "memory" THEN Nth((i[1] - 1) * MM + i[2]) ELSE Address(d, i)
    IN Decode(IF Bug = "order" THEN "little" ELSE d.order, mem[q])
Square(v) == IF Bug = "type" THEN (v * v) % 4 ELSE v * v
Call == /\ pc = "call" /\ pc' = "done"
        /\ res' = [j \in 1..MM |-> LET f(i, k) == i * Square(Read(<<i, k>>)) IN Sum(f, j, 1, NN)]
        /\ mem' = IF Bug = "through" THEN [mem EXCEPT ![Address(d, <<1, 1>>)] = Encode(d.order, 0)] ELSE mem
        /\ UNCHANGED <<a, d, mem0>>
Next == Call
\* the storage stands for the array
Faithful == pc = "call" => Value(mem, d) = a
\* distinct elements have distinct cells
Injective == Cardinality(Addresses) = NN * MM
Depends == pc = "done" => res = Denote(a)
Untouched == mem = mem0
=============================================================================
