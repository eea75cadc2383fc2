------------------------------- MODULE Wavelet -------------------------------
(***************************************************************************)
(* One step of the analysis pyramid and the leaders built on it.           *)
(* Sequences are 1-based; "NaN" marks a missing value.                     *)
(***************************************************************************)
EXTENDS Tensor

\* ---------------------------------------------------------------- lengths
\* floor(log2(n / (L + 1))), the largest admissible scale (may be negative)
RECURSIVE FloorLog2Ratio(_, _)
FloorLog2Ratio(n, d) == IF n < d THEN FloorLog2Ratio(2 * n, d) - 1
                        ELSE IF n < 2 * d THEN 0 ELSE 1 + FloorLog2Ratio(n, 2 * d)
MaxLevel(n, L) == FloorLog2Ratio(n, L + 1)

\* ---------------------------------------------------------------- filters
\* Output position k of the filter h (length L) on a sequence uses the input
\* window Window(k, L): the convolution is centred at (L-1) \div 2.
WinLo(k, L) == k + ((L - 1) \div 2) - (L - 1)
WinHi(k, L) == k + ((L - 1) \div 2)
\* positions of the undecimated output that are kept as data: at least L-1
\* away from either end (stricter than "window inside the sequence")
Inside(k, L, n) == k >= L /\ k <= n - (L - 1)
\* decimation keeps every second position, the even ones
Kept(i) == 2 * i

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
HasNaN(w) == Len(NValid(w)) # Len(w)
\* filtered and decimated sequence; hr is the filter reversed in time
Filtered(a, hr) ==
    LET n == Len(a)  L == Len(hr)
        At(k) == IF ~Inside(k, L, n) THEN NaN
                 ELSE LET w == SubSeq(a, WinLo(k, L), WinHi(k, L))
                      IN IF HasNaN(w) THEN NaN ELSE NDot(hr, w)
    IN TLCEval([i \in 1..(n \div 2) |-> At(Kept(i))])
\* the positions that carry data
ValidAfter(valid, n, L) == {i \in 1..(n \div 2) : /\ Inside(Kept(i), L, n)
                                                   /\ WinLo(Kept(i), L)..WinHi(Kept(i), L) \subseteq valid}

\* per-scale factor: L^norm normalisation and fractional integration
ScaleFactor(j, norm, gamint) ==
    NMul(NPow("2.0", NMul(j, NSub("0.5", NDiv("1.0", norm)))), NPow("2.0", NMul(gamint, j)))

\* ---------------------------------------------------------------- leaders
MaxOrNaN(s) == LET v == NValid(s) IN IF v = <<>> THEN NaN ELSE NMaxSeq(v)
SumOrNaN(s) == LET v == NValid(s) IN IF v = <<>> THEN NaN ELSE NSum(v)
Agg(form, s) == IF form = "wavelet p-leader" THEN SumOrNaN(s) ELSE MaxOrNaN(s)
\* what a coefficient d of scale j contributes
Contribution(form, p, j, d) ==
    IF IsNaN(d) THEN NaN
    ELSE IF form = "wavelet p-leader" THEN NMul(NPow("2.0", j), NPow(NAbs(d), p)) ELSE NAbs(d)
\* aggregate over the dyadic interval (j, k) and all its sub-intervals, from
\* the aggregates `prev` of scale j-1
Tree(form, p, j, det, prev) ==
    TLCEval([k \in 1..Len(det) |->
        LET own == Contribution(form, p, j, det[k]) IN
        IF j = 1 THEN own ELSE Agg(form, <<own, prev[2 * k - 1], prev[2 * k]>>)])
\* aggregate over an interval and its two neighbours, centred on k+1
Neighbours(form, p, j, tree) ==
    TLCEval([k \in 1..(IF Len(tree) < 2 THEN 0 ELSE Len(tree) - 2) |->
        LET s == Agg(form, <<tree[k], tree[k + 1], tree[k + 2]>>) IN
        IF IsNaN(s) \/ form # "wavelet p-leader" THEN s
        ELSE NPow(NMul(NPow("2.0", -j), s), NDiv("1.0", p))])

\* The definition the recursion implements: all coefficients of scales 1..j in
\* the three dyadic intervals (MC_Leaders checks that both agree).
DirectSet(coefs, j, k) ==
    {<<i, m>> \in {<<i, m>> : i \in 1..j, m \in 1..Len(coefs[1])} :
        /\ m <= Len(coefs[i])
        /\ m > (k - 1) * 2^(j - i) /\ m <= (k + 2) * 2^(j - i)}

ValidCount(s) == Len(NValid(s))
MinOver(R, f(_)) == LET S == {f(r) : r \in 1..R} IN CHOOSE m \in S : \A x \in S : m <= x

\* finite-resolution correction of p-leaders at scale j
Correction(eta, p, j) ==
    NPow(NDiv(NSub("1.0", NPow("2.0", NNeg(NMul(j, eta)))), NSub("1.0", NPow("2.0", NNeg(eta)))),
         NNeg(NDiv("1.0", p)))
=============================================================================
