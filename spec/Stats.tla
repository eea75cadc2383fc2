-------------------------------- MODULE Stats --------------------------------
(***************************************************************************)
(* The estimators computed from one multiresolution quantity.              *)
(* The quantity is a sequence T of tensors of shape <<n_j, R>>, scale j at *)
(* index j; "NaN" entries are missing.                                     *)
(***************************************************************************)
EXTENDS Regression

\* valid coefficients of scale j, realisation r, in order
ValidOf(T, R) == TLCEval([j \in 1..Len(T) |-> TLCEval([r \in 1..R |-> NValid(TLCEval(Col(T[j], r)))])])
Counts(V, r) == [j \in 1..Len(V) |-> Len(V[j][r])]
Weights(V, r, j1, j2, weighted) ==
    IF weighted THEN SubSeq(Counts(V, r), j1, j2) ELSE Ones(j2 - j1 + 1)

Mean(s) == NDiv(NSum(s), Len(s))

(* ---- structure functions ---- *)
S(c, q) == Mean(NPowSeq(NAbsSeq(c), q))

(* ---- cumulants ---- *)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Binom(n, k) == Fact(n) \div (Fact(k) * Fact(n - k))
\* cumulants K[1..m] of a distribution with raw moments mu[1..m]:
\*   mu_m = sum_{n=1..m} binom(m-1, n-1) K_n mu_{m-n}
RECURSIVE CumulSeq(_, _)
CumulSeq(mu, m) ==
    IF m = 0 THEN <<>>
    ELSE LET K == CumulSeq(mu, m - 1)
             aux == NSum([n \in 1..(m - 1) |-> NMul(Binom(m - 1, n - 1), NMul(K[n], mu[m - n]))])
         IN Append(K, NSub(mu[m], aux))
\* Cumulants of order 1..M of the empirical distribution of x.  All but the
\* first do not depend on the origin, which is put at the mean.
CumulantsOf(x, M) ==
    LET mean == Mean(x)
        c == NShiftSeq(x, NNeg(mean))
        mu == TLCEval([m \in 1..M |-> Mean(NPowSeq(c, m))])
        K == CumulSeq(mu, M)
    IN [m \in 1..M |-> IF m = 1 THEN mean ELSE K[m]]
Log2e == "1.4426950408889634"

(* ---- multifractal spectrum ---- *)
Nonzero(c) == SelectSeq(NAbsSeq(c), LAMBDA a : ~NEq(a, "0.0"))
\* escort distribution of the magnitudes m (all non-zero).  A coefficient equal
\* to zero has no escort mass for q > 0 (the domain of q when there are zeros).
Escort(m, q) == LET p == NPowSeq(m, q) IN NScaleSeq(p, NDiv("1.0", NSum(p)))
\* (where everything vanishes there is no distribution)
VOf(c, q) == LET m == Nonzero(c) R == Escort(m, q) IN IF m = <<>> THEN NaN ELSE NDot(R, NLog2Seq(m))
UOf(c, q) == LET m == Nonzero(c) R == Escort(m, q)
             IN IF m = <<>> THEN NaN ELSE NAdd(NLog2(Len(c)), NDot(R, NLog2Seq(R)))

(* ---- suprema ---- *)
LogSup(c) == NLog2(NMaxSeq(NAbsSeq(c)))
=============================================================================
