------------------------------ MODULE Spectral ------------------------------
(***************************************************************************)
(* Power spectra, the fit of their slope, and scale/frequency conversion.  *)
(***************************************************************************)
EXTENDS Wavelet, Regression, FiniteSets

TwoPi == NMul(2, NPi)
\* periodic Hamming window of length m
Hamming(m) == [i \in 1..m |-> NSub("0.54", NMul("0.46", NCos(NDiv(NMul(TwoPi, i - 1), m))))]
\* tables of cos and sin of 2 pi k / n, k in 0..n-1
CosTab(n) == [i \in 1..n |-> NCos(NDiv(NMul(TwoPi, i - 1), n))]
SinTab(n) == [i \in 1..n |-> NSin(NDiv(NMul(TwoPi, i - 1), n))]
Angle(tab, k, m) == [i \in 1..m |-> tab[((k * (i - 1)) % Len(tab)) + 1]]
Power(w, k, ct, st) == NAdd(NSq(NDot(w, Angle(ct, k, Len(w)))), NSq(NDot(w, Angle(st, k, Len(w)))))

\* parameters actually used
WelchSeg(n, nfft, seg) == LET s == IF seg = 0 THEN nfft ELSE seg IN IF s < n THEN s ELSE n
WelchNfft(nfft, seg) == IF seg > nfft THEN seg ELSE nfft
Segments(x, m) ==
    LET step == m - (m \div 2)
    IN [i \in 1..((Len(x) - m) \div step + 1) |-> SubSeq(x, (i - 1) * step + 1, (i - 1) * step + m)]
\* four times the one-sided density per radian per sample
Welch(x, nfft, m) ==
    LET win == TLCEval(Hamming(m))
        segs == TLCEval([i \in 1..Len(Segments(x, m)) |-> NMulSeq(win, Segments(x, m)[i])])
        ct == TLCEval(CosTab(nfft))  st == TLCEval(SinTab(nfft))
        norm == NMul(TwoPi, NDot(win, win))
        sides(k) == IF k = 0 \/ 2 * k = nfft THEN 1 ELSE 2
        mean(k) == NDiv(NSum([i \in 1..Len(segs) |-> Power(segs[i], k, ct, st)]), Len(segs))
    IN TLCEval([k \in 1..(nfft \div 2 + 1) |-> NDiv(NMul(4 * sides(k - 1), mean(k - 1)), norm)])

\* the coefficients of the pyramid with L1 normalisation and gamint 1/2, up to J
RECURSIVE Pyramid(_, _, _, _, _)
Pyramid(a, hi, lo, j, J) ==
    IF j > J THEN <<>>
    ELSE LET det == NScaleSeq(Filtered(a, hi), ScaleFactor(j, "1.0", "0.5"))
             low == Filtered(a, lo)
         IN <<det>> \o Pyramid(low, hi, lo, j + 1, J)
MeanSq(d) == LET v == NValid(d) IN NDiv(NDot(v, v), Len(v))

\* ------------------------------------------------------------- conversions
Freq(j, fs) == NDiv(NMul(NMul(3, fs), NPow(2, NNeg(j))), 4)
\* the integer scales whose frequency lies in [lo, hi], among -20..60
InBand(lo, hi, fs) == {j \in -20..60 : NLeq(lo, Freq(j, fs)) /\ NLeq(Freq(j, fs), hi)}

\* --------------------------------------------------------------- slope fit
InFit(f, lo, hi) == NLeq(lo, f) /\ NLeq(f, hi) /\ ~NEq(f, "0.0")
LogOf(base, x) == IF base = "log2" THEN NLog2(x) ELSE NLn(x)
Fit(freq, psd, lo, hi, base) ==
    LET idx == SelectSeq([i \in 1..Len(freq) |-> i], LAMBDA i : InFit(freq[i], lo, hi))
        x == TLCEval([i \in 1..Len(idx) |-> LogOf(base, freq[idx[i]])])
        y == TLCEval([i \in 1..Len(idx) |-> LogOf(base, psd[idx[i]])])
        w == Ones(Len(idx))
    IN [x |-> x, y |-> y, slope |-> Slope(x, y, w), intercept |-> Intercept(x, y, w),
        \* conditioning: the slope is known to about eps * mag(y) * mag(x) / spread(x)
        mag |-> NMul(NAdd("1.0", NMag(y)), NDiv(NAdd("1.0", NMag(x)), NSqrt(NDiv(Sxx(x, w), Len(x)))))]
=============================================================================
