------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* What the harness records of a Python value: a record                    *)
(*    [k |-> "t"    , sh |-> shape, d |-> numbers, row major, e |-> ""]    *)
(*    [k |-> "none" ...]   None                                            *)
(*    [k |-> "exc"  , e |-> exception class name]   the call raised        *)
(*    [k |-> "other", e |-> type name]              anything else          *)
(* All four fields are always present, so that every clause below is total.*)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC

IsT(t) == t.k = "t"
IsNone(t) == t.k = "none"
IsExc(t) == t.k = "exc"
HasShape(t, sh) == t.k = "t" /\ t.sh = sh
IsVec(t, n) == HasShape(t, <<n>>)
IsScalar(t) == t.k = "t" /\ Len(t.d) = 1      \* 0-d or any one-element array
IsMat(t, n, m) == HasShape(t, <<n, m>>)
Sc(t) == t.d[1]
At1(t, i) == t.d[i]
At2(t, i, j) == t.d[(i - 1) * t.sh[2] + j]
At3(t, i, j, l) == t.d[((i - 1) * t.sh[2] + (j - 1)) * t.sh[3] + l]
\* column j of a matrix, row i of a matrix, as sequences
Col(t, j) == [i \in 1..t.sh[1] |-> At2(t, i, j)]
Row(t, i) == SubSeq(t.d, (i - 1) * t.sh[2] + 1, i * t.sh[2])

Chk(name, ok) == IF ok THEN {} ELSE {name}
NearSeq(s, t, scale) == /\ Len(s) = Len(t)
                        /\ \A i \in 1..Len(s) : NNear(s[i], t[i], scale)
NearSeqTol(s, t, scale, tol) == /\ Len(s) = Len(t)
                        /\ \A i \in 1..Len(s) : NNearTol(s[i], t[i], scale, tol)
\* same numbers exactly (NaN = NaN)
SameSeq(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in 1..Len(s) : NEq(s[i], t[i]) \/ (IsNaN(s[i]) /\ IsNaN(t[i]))
\* the same Python value, numbers up to rounding / exactly
NearT(a, b, scale) == a.k = b.k /\ a.sh = b.sh /\ a.e = b.e /\ NearSeq(a.d, b.d, scale)
NearTTol(a, b, scale, tol) == a.k = b.k /\ a.sh = b.sh /\ a.e = b.e /\ NearSeqTol(a.d, b.d, scale, tol)
SameT(a, b) == a.k = b.k /\ a.sh = b.sh /\ a.e = b.e /\ SameSeq(a.d, b.d)
=============================================================================
