------------------------------ MODULE MC_Masks ------------------------------
(***************************************************************************)
(* The recursive mask of the pyramid (Wavelet!ValidAfter, the rule the     *)
(* implementation follows scale by scale) has the closed form a user       *)
(* relies on: coefficient (j, i) depends exactly on the samples            *)
(*     2^j i - (2^j - 1) c' .. 2^j i + (2^j - 1) c,                        *)
(* it is reported iff that interval lies inside the available samples and  *)
(* it would be reported without missing samples.  Checked for every        *)
(* length, filter length and gap pattern up to the bounds.                 *)
(***************************************************************************)
EXTENDS Wavelet, FiniteSets
CONSTANTS Ns, Ls, GapLens, Bug
VARIABLES n, L, gap, j, len, valid, free, lens
vars == <<n, L, gap, j, len, valid, free, lens>>

Gaps(m) == {{}} \cup {a..(a + g - 1) : a \in 1..m, g \in GapLens} \cup {{a, b} : a \in {k \in 1..m : k % 3 = 1}, b \in {k \in 1..m : k % 4 = 2}}
Init == /\ n \in Ns /\ L \in Ls /\ n > L /\ j = 0 /\ len = n
        /\ gap = {} /\ valid = {} /\ free = {} /\ lens = <<>>
Choose == /\ lens = <<>>
          /\ gap' \in {g \in Gaps(n) : g \subseteq 1..n}
          /\ valid' = (1..n) \ gap' /\ free' = 1..n /\ lens' = <<n>>
          /\ UNCHANGED <<n, L, j, len>>
Lx == IF Bug = "border" /\ j > 0 THEN L - 1 ELSE L          \* a rule that forgets one sample
Step == /\ lens # <<>> /\ len >= 2 /\ j < 5
        /\ valid' = ValidAfter(valid, len, Lx)
        /\ free' = ValidAfter(free, len, Lx)
        /\ len' = len \div 2 /\ j' = j + 1 /\ lens' = Append(lens, len \div 2)
        /\ UNCHANGED <<n, L, gap>>
Next == Choose \/ Step

C == (L - 1) \div 2
Cp == L - 1 - C
Lo(i) == 2^j * i - (2^j - 1) * Cp
Hi(i) == 2^j * i + (2^j - 1) * C
Started == lens # <<>>
\* no padding, no missing sample
Sound == Started => \A i \in valid : Lo(i) >= 1 /\ Hi(i) <= n /\ (Lo(i)..Hi(i)) \cap gap = {}
\* and nothing else is lost to the gap
Complete == Started => valid = {i \in free : (Lo(i)..Hi(i)) \cap gap = {}}
\* the positions lost at the ends when nothing is missing: at each end no more
\* than L - 1 (the filter's) plus those of the finer scale
Contiguous == Started => \A a, b \in free : \A c \in a..b : c \in free
Ends == (Started /\ j > 0 /\ free # {}) =>
    LET lo == CHOOSE a \in free : \A b \in free : a <= b  hi == CHOOSE a \in free : \A b \in free : a >= b
    IN lo - 1 <= L - 1 /\ len - hi <= L
\* lengths and counts halve; the count is bounded by the level rule
Halves == (Started /\ j > 0) => /\ 2 * Cardinality(valid) <= lens[Len(lens) - 1] - 2 * (L - 1) + 1 \/ valid = {}
                               /\ len = n \div 2^j
LevelRule == (Started /\ Cardinality(free) >= 3 /\ j > 0) => j <= MaxLevel(n, L) + 2
\* the border is symmetric: the rule loses as much at either end
Border == \A k \in 1..n : Inside(k, L, n) <=> Inside(n + 1 - k, L, n)
\* the admissible scales are those whose support fits: 2^J (L + 1) <= n
MaxLevelLaw == \A J \in 0..8 : 2^J * (L + 1) <= n <=> J <= MaxLevel(n, L)
TypeOK == valid \subseteq free /\ (Started => free \subseteq 1..len)
=============================================================================
