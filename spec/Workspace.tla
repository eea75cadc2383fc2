------------------------------ MODULE Workspace ------------------------------
(***************************************************************************)
(* The Signal object.  Its abstract state is only what the properties may  *)
(* depend on:                                                              *)
(*   wt    parameters of the last successful wavelet analysis ("-": none)  *)
(*   mf    parameters of the saved multifractal analysis of that transform *)
(*   psd, welch, fractal   parameters of the last successful request       *)
(* A call is a record [op, w, m, p, save]: w names a set of wavelet        *)
(* parameters, m one of multifractal parameters, p one of PSD parameters.  *)
(* A result is named by the stand-alone computation it must be equal to    *)
(* (a token), e.g. "mf|w3|m1".                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

None == "-"
S0 == [wt |-> None, mf |-> None, psd |-> None, welch |-> None, fractal |-> None]
Tok(f, a) == f \o "|" \o a
Tok2(f, a, b) == f \o "|" \o a \o "|" \o b

\* what the call must return; AttributeError: no wavelet analysis succeeded yet
Needs == {"mf", "hurst", "hmin"}
Result(st, c) ==
    IF c.op \in Needs /\ st.wt = None THEN "AttributeError"
    ELSE CASE c.op = "wavelet" -> Tok("wavelet", c.w)
           [] c.op = "mf" -> Tok2("mf", st.wt, c.m)
           [] c.op = "full" -> Tok2("mf", c.w, c.m)
           [] c.op = "hurst" -> Tok("hurst", st.wt)
           [] c.op = "hmin" -> Tok("hmin", st.wt)
           [] c.op = "psd" -> Tok("psd", c.p)
           [] c.op = "welch" -> Tok("welch", c.p)
           [] c.op = "fractal" -> Tok("fractal", c.p)
           [] c.op \in {"plotpsd", "plotfractal"} -> "nothing"

\* The state after the call, given which computations fail.
Next2(st, c, Fails(_)) ==
    IF c.op = "wavelet" THEN
        IF Fails(Tok("wavelet", c.w)) \/ st.wt = c.w THEN st
        ELSE [st EXCEPT !.wt = c.w, !.mf = None]
    ELSE IF c.op \in {"mf", "full"} THEN
        LET s1 == IF c.op = "mf" \/ st.wt = c.w THEN st
                  ELSE IF Fails(Tok("wavelet", c.w)) THEN st
                  ELSE [st EXCEPT !.wt = c.w, !.mf = None]
        IN IF s1.wt = None \/ (c.op = "full" /\ s1.wt # c.w) THEN s1
           ELSE IF ~c.save \/ Fails(Tok2("mf", s1.wt, c.m)) THEN s1
           ELSE [s1 EXCEPT !.mf = c.m]
    ELSE IF c.op = "psd" THEN IF Fails(Tok("psd", c.p)) THEN st ELSE [st EXCEPT !.psd = c.p]
    ELSE IF c.op = "welch" THEN IF Fails(Tok("welch", c.p)) THEN st ELSE [st EXCEPT !.welch = c.p]
    ELSE IF c.op = "fractal" THEN
        \* the fit uses the wavelet PSD with the same number of moments, psdof
        LET s1 == IF Fails(Tok("psd", c.psdof)) THEN st ELSE [st EXCEPT !.psd = c.psdof]
        IN IF Fails(Tok("fractal", c.p)) THEN s1 ELSE [s1 EXCEPT !.fractal = c.p]
    ELSE IF c.op \in {"plotpsd", "plotfractal"} THEN
        LET s1 == [st EXCEPT !.psd = c.psdof, !.welch = c.wel]
        IN IF c.op = "plotpsd" THEN s1 ELSE [s1 EXCEPT !.fractal = c.p]
    ELSE st
\* what the object holds (its public attributes)
Held(st) == [wt_transform |-> IF st.wt = None THEN None ELSE Tok("wavelet", st.wt),
             multi_fractal |-> IF st.mf = None THEN None ELSE Tok2("mf", st.wt, st.mf),
             wt_psd |-> IF st.psd = None THEN None ELSE Tok("psd", st.psd),
             welch_psd |-> IF st.welch = None THEN None ELSE Tok("welch", st.welch),
             fractal |-> IF st.fractal = None THEN None ELSE Tok("fractal", st.fractal)]

\* plotting the PSDs (or the fit) requests both estimates (and the fit) first; nothing is returned
PlotFails(c, Fails(_)) == Fails(Tok("psd", c.psdof)) \/ Fails(Tok("welch", c.wel))
                          \/ (c.op = "plotfractal" /\ Fails(Tok("fractal", c.p)))

\* the calls explored; names starting with x denote parameters whose computation fails
C(op) == [op |-> op, w |-> "", m |-> "", p |-> "", save |-> TRUE, psdof |-> "", wel |-> ""]
CallsOf(W, M, P, F, PsdOf) ==
    {[C("wavelet") EXCEPT !.w = w] : w \in W}
    \cup {[C("mf") EXCEPT !.m = m, !.save = s] : m \in M, s \in BOOLEAN}
    \cup {[C("full") EXCEPT !.w = w, !.m = m, !.save = s] : w \in W, m \in M, s \in BOOLEAN}
    \cup {C("hurst"), C("hmin")}
    \cup {[C("psd") EXCEPT !.p = p] : p \in P}
    \cup {[C("welch") EXCEPT !.p = p] : p \in P}
    \cup {[C("fractal") EXCEPT !.p = f, !.psdof = PsdOf[f]] : f \in F}
\* plots, with parameters whose computation succeeds
PlotsOf(P, F, PsdOf) ==
    {[C("plotpsd") EXCEPT !.psdof = p, !.wel = v] : p \in P, v \in P}
    \cup {[C("plotfractal") EXCEPT !.p = f, !.psdof = PsdOf[f], !.wel = v] : f \in F, v \in P}
=============================================================================
