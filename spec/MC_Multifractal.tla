--------------------------- MODULE MC_Multifractal ---------------------------
(***************************************************************************)
(* The estimators of Stats, Bivariate and Wavelet, applied to cascades,    *)
(* give the closed forms of Multifractal (C27), and the closed forms obey  *)
(* the multifractal formalism: for all multipliers from Vals.              *)
(***************************************************************************)
EXTENDS Multifractal
CONSTANTS Vals, Qs, MaxB, Top, MaxM
VARIABLES m, w
Init == m = <<>> /\ w = <<>>
Next == /\ Len(m) < MaxB
        /\ \E v, u \in Vals : m' = Append(m, v) /\ w' = Append(w, u)
on == Len(m) >= 2
near(x, y) == NNearTol(x, y, "1.0", "1.0E-9")
G == [m |-> m, top |-> Top, s |-> "0.7", t |-> "-1.3"]
H == [m |-> w, top |-> Top, s |-> "0.2", t |-> "0.4"]
Scale == 1..(Top - 1)
Estimators == on => \A j \in Scale : \E c \in {Quantity(G, j)} :
    /\ \A q \in Qs : near(NLog2(S(c, q)), ThLogS(G, q, j)) /\ near(VOf(c, q), ThV(G, q, j)) /\ near(UOf(c, q), ThU(G, q, j))
    /\ \E K \in {Kappa(m, MaxM)} : \E E \in {CumulantsOf(LnMag(c), MaxM)} :
          \A k \in 1..MaxM : NNearTol(E[k], ThC(G, k, K, j), NPow(NAdd("1.0", NMag(LnMag(c))), k), "1.0E-11")
    /\ near(LogSup(c), ThSup(G, j))
Slopes == on => \E K \in {Kappa(m, MaxM)} : LET Y(f(_)) == TLCEval([j \in 1..(Top - 1) |-> f(j)])
                   R(y) == ScaleSlope(y, 1, Top - 1, [j \in 1..(Top - 1) |-> Top + 1 - j]) IN
    /\ \A q \in Qs : /\ near(R(Y(LAMBDA j : ThLogS(G, q, j))), ThZeta(G, q))
                      /\ near(R(Y(LAMBDA j : ThV(G, q, j))), ThH(G, q))
                      /\ near(NAdd("1.0", R(Y(LAMBDA j : ThU(G, q, j)))), ThD(G, q))
    /\ \A k \in 1..MaxM : near(NMul(Log2e, R(Y(LAMBDA j : ThC(G, k, K, j)))), ThLogCumulant(G, k, K))
    /\ near(R(Y(LAMBDA j : ThSup(G, j))), ThHmin(G))
\* the multifractal formalism
Formalism == on =>
    /\ near(ThZeta(G, 0), 0) /\ near(ThD(G, 0), 1)
    /\ \A q \in Qs :
        /\ near(ThD(G, q), NSub(NAdd(1, NMul(q, ThH(G, q))), ThZeta(G, q)))         \* Legendre
        /\ NLeq(ThD(G, q), "1.0000000001") /\ NLeq("-1.0E-10", NAdd(ThD(G, q), NSub(NLog2(Len(m)), 1)))
        /\ NLeq(ThHmin(G), NAdd(ThH(G, q), "1.0E-10"))                              \* hmin bounds every exponent
        /\ LET e == "0.0001" IN NNearTol(ThH(G, q), NDiv(NSub(ThZeta(G, NAdd(q, e)), ThZeta(G, NSub(q, e))), NMul(2, e)), "1.0", "1.0E-5")
        /\ \A q2 \in Qs : /\ NLeq(NDiv(NAdd(ThZeta(G, q), ThZeta(G, q2)), 2), NAdd(ThZeta(G, NDiv(NAdd(q, q2), 2)), "1.0E-10"))
                           /\ NLeq(q, q2) => NLeq(ThH(G, q2), NAdd(ThH(G, q), "1.0E-10"))
    \* zeta(q) = sum c_k q^k / k!, sign of c_2
    /\ \E K \in {Kappa(m, MaxM)} : LET q == "0.01" IN
        /\ NNearTol(ThZeta(G, q), NSum([k \in 1..MaxM |-> NMul(ThLogCumulant(G, k, K), NDiv(NPow(q, k), Fact(k)))]), "1.0", "1.0E-7")
        /\ NLeq(ThLogCumulant(G, 2, K), "1.0E-12")
    \* gamint and normalisation only shift
    /\ \A q \in Qs : LET G2 == [G EXCEPT !.s = "1.2"] IN near(ThZeta(G2, q), NAdd(ThZeta(G, q), NMul(q, "0.5"))) /\ near(ThD(G2, q), ThD(G, q))
Pairs == on => \A j \in Scale : \E c \in {Quantity(G, j)} : \E d \in {Quantity(H, j)} :
    /\ \A q1, q2 \in Qs : near(NLog2(BiS(c, d, q1, q2)), ThBiLogS(G, H, q1, q2, j))
    /\ near(Coherence(c, d), ThCoherence(G, H, 1, j))
    /\ NNearTol(CoCumulant(c, d), NMul(Top - j, CoCumulant(m, w)), NMul(NAdd(1, NMag(LnMag(c))), NAdd(1, NMag(LnMag(d)))), "1.0E-11")
\* the exponents of a pair are the regressions of their scale functions
PairSlopes == on => \E KA \in {Kappa(m, MaxM)} : \E KB \in {Kappa(w, MaxM)} :
    LET Y(f(_)) == TLCEval([j \in 1..(Top - 1) |-> f(j)])
        R(y) == ScaleSlope(y, 1, Top - 1, [j \in 1..(Top - 1) |-> Top + 1 - j])
        co == CoCumulant(m, w) IN
    /\ \A q1, q2 \in Qs : near(R(Y(LAMBDA j : ThBiLogS(G, H, q1, q2, j))), ThBiZeta(G, H, q1, q2))
    /\ \A q \in Qs : near(ThBiZeta(G, H, q, 0), ThZeta(G, q)) /\ near(ThBiZeta(G, H, 0, q), ThZeta(H, q))
    /\ \A m1, m2 \in 0..2 : near(NMul(Log2e, R(Y(LAMBDA j : ThBiC(G, H, KA, KB, m1, m2, j)))), ThBiLogCumulant(G, H, KA, KB, m1, m2))
    /\ \A k \in 1..MaxM : near(ThBiLogCumulant(G, H, KA, KB, k, 0), ThLogCumulant(G, k, KA)) /\ near(ThBiLogCumulant(G, H, KA, KB, 0, k), ThLogCumulant(H, k, KB))
    \* zeta(q, q) expanded to second order
    /\ LET q == "0.001" z == NSum([k \in 1..3 |-> CASE k = 1 -> NMul(q, NAdd(ThLogCumulant(G, 1, KA), ThLogCumulant(H, 1, KB)))
                  [] k = 2 -> NMul(NDiv(NSq(q), 2), NAdd(ThLogCumulant(G, 2, KA), ThLogCumulant(H, 2, KB)))
                  [] k = 3 -> NMul(NSq(q), ThBiLogCumulant(G, H, KA, KB, 1, 1))]) IN
       NNearTol(ThBiZeta(G, H, q, q), z, "1.0", "1.0E-7")
    /\ (NLt("1.0E-6", KA[2]) /\ NLt("1.0E-6", KB[2])) =>
         /\ NLeq(NAbs(ThRho(G, H, KA, KB)), "1.0000000001") /\ near(ThRho(G, G, KA, KA), 1) /\ near(ThRho(G, H, KA, KB), ThRho(H, G, KB, KA))
\* normalisation and fractional integration
Factors == m = <<>> => \A j \in 1..Top :
    /\ near(ScaleFactor(j, 2, 0), 1) /\ near(ScaleFactor(j, 1, 0), NPow(2, NDiv(-j, 2))) /\ near(ScaleFactor(j, "0.5", 0), NPow(2, NMul(j, "-1.5")))
    /\ \A g \in Qs : near(ScaleFactor(j, 1, g), NMul(ScaleFactor(j, 1, 0), NPow(NPow(2, g), j)))
\* a cascade with two multipliers is realised by a signal; leaders
pad == [i \in 1..(2^(Top - 1)) |-> NaN]
F == TLCEval([j \in 1..Top |-> ScaleFactor(j, 1, "0.4")])
RECURSIVE Pyr(_, _, _)
Pyr(low, j, J) == IF j > J THEN <<>>
    ELSE <<NScaleSeq(Filtered(low, HaarHi), F[j])>> \o Pyr(Filtered(low, HaarLo), j + 1, J)
RECURSIVE Trees(_, _, _, _)
Trees(D, form, p, j) == IF j = 0 THEN <<>> ELSE LET T == Trees(D, form, p, j - 1) IN
    Append(T, Tree(form, p, j, D[j], IF j = 1 THEN <<>> ELSE T[j - 1]))
Realised == Len(m) = 2 =>
    \E x \in {pad \o Synthesis(G, Top, <<"0.0">>, F) \o pad} : \E D \in {Pyr(x, 1, Top - 2)} :
    /\ \A j \in 1..(Top - 2) : \E v \in {NValid(D[j])} : \E c \in {Quantity(G, j)} :
          Len(v) = Len(c) /\ \A i \in 1..Len(c) : NNearTol(v[i], c[i], NMag(c), "1.0E-10")
    /\ \A p \in {"0.5", "2.0"} : \E T \in {Trees(D, "wavelet p-leader", p, Top - 2)} : \A j \in 1..(Top - 3) :
          \E L \in {NValid(Neighbours("wavelet p-leader", p, j, T[j]))} :
             /\ Len(L) = 2^(Top - j) + 2
             /\ NNearTol(NLog2(S(L, p)), ThLogSLeader(G, p, j, 2^(Top - j), FALSE), "1.0", "1.0E-8")
             /\ LET eta == ThZeta(G, p) IN NLt("0.01", NAbs(eta)) =>
                  NNearTol(NLog2(S(NScaleSeq(L, Correction(eta, p, j)), p)), ThLogSLeader(G, p, j, 2^(Top - j), TRUE), "1.0", "1.0E-8")
    \* the suprema grow when hmin > 0: the largest leader is the largest coefficient
    /\ NLeq("0.0", ThHmin(G)) => \E T \in {Trees(D, "wavelet leader", 1, Top - 2)} : \A j \in 1..(Top - 3) :
          near(LogSup(NValid(Neighbours("wavelet leader", 1, j, T[j]))), ThSup(G, j))
=============================================================================
