-------------------------- MODULE MC_SpectralLaws --------------------------
(***************************************************************************)
(* Spectral.tla: energy conservation and scaling of the Welch density, the *)
(* scale / frequency bijection and bands, recovery of power laws (C19-C21).*)
(***************************************************************************)
EXTENDS Spectral
CONSTANTS Vals, MaxLen, Nffts, Fss
VARIABLES x, nfft, fs
Init == x = <<>> /\ nfft \in Nffts /\ fs \in Fss
Next == Len(x) < MaxLen /\ (\E v \in Vals : x' = Append(x, v)) /\ UNCHANGED <<nfft, fs>>
n == Len(x)
near(a, b) == NNearTol(a, b, NAdd(1, NSq(NMag(x))), "1.0E-10")
M == WelchSeg(n, nfft, 0)
\* the density integrates (over radians) to 4 times the windowed mean power of the segments
Energy == n >= 2 => \E P \in {Welch(x, nfft, M)} : LET win == Hamming(M)
        pow(seg) == NDiv(NDot(NMulSeq(win, seg), NMulSeq(win, seg)), NDot(win, win))
        segs == Segments(x, M)
    IN /\ near(NMul(NSum(P), NDiv(TwoPi, nfft)), NMul(4, NDiv(NSum([i \in 1..Len(segs) |-> pow(segs[i])]), Len(segs))))
       /\ \A k \in 1..Len(P) : NLeq("-1.0E-12", P[k]) /\ Len(P) = nfft \div 2 + 1
       /\ \A k \in 1..Len(P) : near(Welch(NScaleSeq(x, -3), nfft, M)[k], NMul(9, P[k]))
\* the window is positive, symmetric about m/2, .08 at the start, sums to .54 m and 1 at the centre
Window == n = 0 => \A m \in 3..16 : LET h == Hamming(m) IN
    /\ near(h[1], "0.08") /\ near(NSum(h), NMul("0.54", m)) /\ (m % 2 = 0 => near(h[(m \div 2) + 1], 1))
    /\ \A i \in 2..m : near(h[i], h[m + 2 - i])
\* segments: cover from the start, half overlap, all of the length M
SegLaw == n >= 2 => \A m \in 1..n : LET s == Segments(x, m) st == m - (m \div 2) IN
    /\ Len(s) >= 1 /\ s[1] = SubSeq(x, 1, m) /\ (\A i \in 1..Len(s) : Len(s[i]) = m)
    /\ (Len(s) - 1) * st + m <= n /\ Len(s) * st + m > n
Params == n >= 1 => \A seg \in 0..12 : /\ WelchSeg(n, nfft, seg) <= n /\ WelchNfft(nfft, seg) >= WelchSeg(n, nfft, seg)
                                      /\ WelchNfft(nfft, 0) = nfft
\* conversions (once per sampling frequency)
Conv == n = 0 => \A j \in -6..20 :
    /\ NEq(Freq(j + 1, fs), NDiv(Freq(j, fs), 2))
    /\ near(NLog2(NDiv(NMul(NDiv(3, 4), fs), Freq(j, fs))), j)
    /\ InBand(Freq(j, fs), Freq(j, fs), fs) = {j}
    /\ InBand(NMul("1.01", Freq(j, fs)), NMul("1.99", Freq(j, fs)), fs) = {}
    /\ \A k \in 0..3 : InBand(NMul("0.9", Freq(j, fs)), Freq(j - k, fs), fs) = (j - k)..j
\* power laws are recovered over any band that holds two frequencies, in both
\* bases, whatever their constant; scaling the densities moves log_C only
Freqs == [i \in 1..9 |-> NMul(i - 1, NDiv(fs, 16))]
Law(beta, C) == [i \in 1..9 |-> IF i = 1 THEN "1.0" ELSE NMul(C, NPow(Freqs[i], beta))]
Recover == n = 0 => \A beta \in {"-2.2", "-1.0", "0.0", "0.7"}, C \in {"0.001", "1.0", "250.0"}, base \in {"log2", "log"}, lo \in 0..6, w \in 1..3 :
    LET F == Fit(Freqs, Law(beta, C), NMul(lo, NDiv(fs, 16)), NMul(lo + w, NDiv(fs, 16)), base) IN
    (Len(F.x) >= 2 /\ lo + w <= 8) => /\ NNearTol(F.slope, beta, F.mag, "1.0E-11") /\ NNearTol(F.intercept, LogOf(base, C), F.mag, "1.0E-11")
                     /\ Len(F.x) = w + 1 - (IF lo = 0 THEN 1 ELSE 0)
=============================================================================
