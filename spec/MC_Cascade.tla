----------------------------- MODULE MC_Cascade -----------------------------
(***************************************************************************)
(* The whole analysis (Cascade.tla) run by TLC on small signals: Haar and  *)
(* Daubechies-2 filters, every run of missing samples up to MaxRun, three  *)
(* leader types, one or two realisations, with and without a trend below   *)
(* the vanishing moments.  The invariants are the guarantees the listed    *)
(* properties C01-C06 state about any reachable result.                    *)
(***************************************************************************)
EXTENDS Cascade, FiniteSets
CONSTANTS Ns, MaxRun, Wts
VARIABLE trend
vars == <<req, low, j, coefs, tree, leaders, phase, top, trend>>

H1 == [hi |-> <<"-0.7071067811865475", "0.7071067811865475">>, lo |-> <<"0.7071067811865475", "0.7071067811865475">>]
\* Daubechies 2 (decomposition filters)
H2 == [lo |-> <<"-0.12940952255126037", "0.2241438680420134", "0.8365163037378079", "0.48296291314453416">>,
       hi |-> <<"-0.48296291314453416", "0.8365163037378079", "-0.2241438680420134", "-0.12940952255126037">>]
Filt(w) == IF w = 1 THEN H1 ELSE H2
Noise(n, r) == [i \in 1..n |-> NDiv(((37 * i * i + 11 * i * (r + 1) + 5 * r) % 53) - 26, 7)]
Trend(n, w) == [i \in 1..n |-> IF w = 1 THEN "12.5" ELSE NAdd("12.5", NMul("-3.25", i))]
Add(s, t) == [i \in 1..Len(s) |-> NAdd(s[i], t[i])]
Gapped(s, g) == [i \in 1..Len(s) |-> IF i \in g THEN NaN ELSE s[i]]

Init == CIdle /\ trend \in BOOLEAN
Forms == {"wavelet coef", "wavelet leader", "wavelet p-leader"}
Begin == \E n \in Ns, w \in Wts, R \in {1, 2}, f \in Forms : \E a \in 1..n, len \in 0..MaxRun :
    /\ (a = 1 \/ len > 0) /\ a + len - 1 <= n
    \* realisation 1 has the gap
    /\ LET L == 2 * w
           sig == [r \in 1..R |-> LET s == IF trend THEN Add(Noise(n, r), Trend(n, w)) ELSE Noise(n, r)
                                  IN IF r = 1 THEN Gapped(s, a..(a + len - 1)) ELSE s]
           ml == MaxLevel(n, L)
       IN Start([n |-> n, R |-> R, L |-> L, hi |-> Rev(NScaleSeq(Filt(w).hi, -1)), lo |-> Rev(Filt(w).lo), form |-> f,
                 p |-> "1.5", norm |-> 1, gamint |-> "0.5", maxlevel |-> IF ml < 0 THEN 0 ELSE ml, w |-> w, gap |-> a..(a + len - 1)],
                TLCEval(sig))
    /\ UNCHANGED trend
Go == /\ CanScale
      /\ \E det \in {NextDetail} : \E tr \in {TreeOf(det)} : \E ld \in {LeadersOf(tr)} :
            \/ StopAtCoefs(det) \/ StopAtLeaders(det, tr, ld) \/ Scale(det, NextLow, tr, ld)
      /\ UNCHANGED trend
End == Exhausted /\ UNCHANGED trend
Next == Begin \/ Go \/ End

Running == phase # "idle"
Rs == 1..req.R
\* C03: contiguous scales with three coefficients each, at most maxlevel, one
\* more scale of coefficients than of leaders at most; top is what was done
Range == Running =>
    /\ Len(coefs) <= req.maxlevel
    /\ \A i \in 1..Len(coefs), r \in Rs : ValidCount(coefs[i][r]) >= MINCOUNT
    /\ \A i \in 1..Len(leaders), r \in Rs : ValidCount(leaders[i][r]) >= MINCOUNT
    /\ IF WithLeaders THEN Len(leaders) <= Len(coefs) /\ Len(coefs) <= Len(leaders) + 1 ELSE leaders = <<>>
    /\ (phase = "stopped" => top = j /\ top = IF WithLeaders THEN Len(leaders) ELSE Len(coefs))
\* C04: leaders dominate the coefficients around them and the finer leaders,
\* and grow: L_j(k) >= every |d| of scale j in the three intervals
Dominate == (Running /\ req.form = "wavelet leader") => \A i \in 1..Len(leaders), r \in Rs : \A k \in 1..Len(leaders[i][r]) :
    /\ \A m \in k..(k + 2) : IsNaN(coefs[i][r][m]) \/ NLeq(NAbs(coefs[i][r][m]), leaders[i][r][k])
    /\ (i > 1 => \A m \in (2 * k - 1)..(2 * k + 4) : m <= Len(coefs[i - 1][r]) => (IsNaN(coefs[i - 1][r][m]) \/ NLeq(NAbs(coefs[i - 1][r][m]), leaders[i][r][k])))
    /\ IsNaN(leaders[i][r][k]) \/ \E s \in 1..i : \E m \in 1..Len(coefs[s][r]) : ~IsNaN(coefs[s][r][m]) /\ NEq(NAbs(coefs[s][r][m]), leaders[i][r][k])
\* C05: p-leaders are between the largest term and the l1 sum
PBounds == (Running /\ req.form = "wavelet p-leader") => \A i \in 1..Len(leaders), r \in Rs : \A k \in 1..Len(leaders[i][r]) :
    IsNaN(leaders[i][r][k]) \/ \A m \in k..(k + 2) : IsNaN(coefs[i][r][m]) \/ NLeq(NAbs(coefs[i][r][m]), NMul("1.0000001", leaders[i][r][k]))
\* C01: no coefficient depends on padding or on a missing sample (closed form)
C == (req.L - 1) \div 2
Cp == req.L - 1 - C
NoPadding == Running => \A i \in 1..Len(coefs), r \in Rs : \A k \in 1..Len(coefs[i][r]) :
    ~IsNaN(coefs[i][r][k]) => LET lo == 2^i * k - (2^i - 1) * Cp  hi == 2^i * k + (2^i - 1) * C
                              IN lo >= 1 /\ hi <= req.n /\ (r = 1 => (lo..hi) \cap req.gap = {})
\* C02: a trend below the vanishing moments leaves the coefficients unchanged
\* (compared with the transform of the noise alone, recomputed directly)
RECURSIVE Detail(_, _, _)
Detail(a, i, hl) == IF i = 1 THEN NScaleSeq(Filtered(a, hl.hi), 1) ELSE Detail(Filtered(a, hl.lo), i - 1, hl)
TrendFree == (Running /\ trend) => \A i \in 1..Len(coefs), r \in Rs :
    LET d == Detail(Gapped(Noise(req.n, r), IF r = 1 THEN req.gap ELSE {}), i, [hi |-> req.hi, lo |-> req.lo])
    IN NearSeqTol(coefs[i][r], NScaleSeq(d, ScaleFactor(i, req.norm, req.gamint)), "100.0", "1.0E-10")
\* C06: realisation 2 never sees the gap of realisation 1, except by stopping
Indep == (Running /\ req.R = 2 /\ ~trend) => \A i \in 1..Len(coefs) :
    NearSeqTol(coefs[i][2], NScaleSeq(Detail(Noise(req.n, 2), i, [hi |-> req.hi, lo |-> req.lo]), ScaleFactor(i, req.norm, req.gamint)), "100.0", "1.0E-10")
Finishes == <>(phase = "stopped")
=============================================================================
