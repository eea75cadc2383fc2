---------------------------- MODULE MC_Workspace ----------------------------
(***************************************************************************)
(* The caching design of Signal (results kept together with the parameters *)
(* they were computed from, and reused when the parameters are the same)   *)
(* refines Workspace: whatever the sequence of calls, including failing    *)
(* ones, the value returned is the one of a fresh computation, and the     *)
(* attributes hold what Workspace says.                                    *)
(* Bug selects a defective variant, used as a negative control.            *)
(***************************************************************************)
EXTENDS Workspace
CONSTANT Bug
W == {"w0", "w1", "w2", "w3"}
XW == {"x0", "x1"}
M == {"m0", "m1", "m2"}
XM == {"xm0", "xm1"}
P == {"p0", "p1"}
XP == {"xp0"}
F == {"f0", "f1", "f2"}
XF == {"xf0", "xf1"}
PsdOf == [f0 |-> "p0", f1 |-> "p1", f2 |-> "p0", xf0 |-> "p1", xf1 |-> "xp0"]
Calls == CallsOf(W \cup XW, M \cup XM, P \cup XP, F \cup XF, PsdOf) \cup PlotsOf(P, F, PsdOf)
VARIABLES st,                     \* Workspace state
          wtP, wtV, mfP, mfV, psdP, psdV, welP, welV, frV,   \* parameters and values of the caches
          ret, exp
vars == <<st, wtP, wtV, mfP, mfV, psdP, psdV, welP, welV, frV, ret, exp>>
FailNames == {"x0", "x1", "xm0", "xm1", "xp0", "xf0", "xf1"}
FailTok == {Tok("wavelet", w) : w \in XW}
           \cup {Tok2("mf", w, m) : w \in W, m \in XM} \cup {Tok2("mf", w, m) : w \in XW, m \in M \cup XM}
           \cup {Tok("psd", p) : p \in XP} \cup {Tok("welch", p) : p \in XP} \cup {Tok("fractal", f) : f \in XF}
Fails(t) == t \in FailTok
\* a failed computation returns its own token: the oracle holds the exception for it
Init == /\ st = S0 /\ wtP = None /\ wtV = None /\ mfP = None /\ mfV = None /\ psdP = None /\ psdV = None
        /\ welP = None /\ welV = None /\ frV = None /\ ret = "" /\ exp = ""

\* wavelet_analysis(w): [P, V, mfP, mfV, ok]
WT(w) == IF wtP = w THEN [P |-> wtP, V |-> wtV, mp |-> mfP, mv |-> mfV, ok |-> TRUE]
         ELSE IF Fails(Tok("wavelet", w)) THEN
              [P |-> IF Bug = "relabel" THEN w ELSE wtP, V |-> wtV, mp |-> mfP, mv |-> mfV, ok |-> FALSE]
         ELSE [P |-> w, V |-> Tok("wavelet", w), mp |-> IF Bug = "keepmf" THEN mfP ELSE None,
               mv |-> IF Bug = "keepmf" THEN mfV ELSE None, ok |-> TRUE]
\* mf_analysis(m, save) on the transform whose label is P: [P, V, ret]
\* (a value token of "wavelet|w" analysed with m is "mf|w|m")
MFof(V, m) == "mf" \o SubSeq(V, 8, Len(V)) \o "|" \o m
MF(x, m, save) ==
    IF x.mv # None /\ x.mp = m THEN [P |-> x.mp, V |-> x.mv, ret |-> x.mv]
    ELSE LET v == MFof(x.V, m)
             keep == (save \/ Bug = "saveall") /\ ~Fails(v)
         IN [P |-> IF keep THEN m ELSE x.mp, V |-> IF keep THEN v ELSE x.mv, ret |-> v]

DoWavelet(c) == LET x == WT(c.w) IN
    /\ wtP' = x.P /\ wtV' = x.V /\ mfP' = x.mp /\ mfV' = x.mv
    /\ ret' = IF x.ok THEN x.V ELSE Tok("wavelet", c.w)
    /\ UNCHANGED <<psdP, psdV, welP, welV, frV>>
DoMF(c) ==
    /\ IF wtV = None THEN ret' = "AttributeError" /\ UNCHANGED <<mfP, mfV>>
       ELSE LET y == MF([mp |-> mfP, mv |-> mfV, V |-> wtV], c.m, c.save) IN mfP' = y.P /\ mfV' = y.V /\ ret' = y.ret
    /\ UNCHANGED <<wtP, wtV, psdP, psdV, welP, welV, frV>>
DoFull(c) ==
    /\ LET x == WT(c.w) IN
       /\ wtP' = x.P /\ wtV' = x.V
       /\ IF ~x.ok THEN mfP' = x.mp /\ mfV' = x.mv /\ ret' = Tok2("mf", c.w, c.m)
          ELSE LET y == MF(x, c.m, c.save) IN mfP' = y.P /\ mfV' = y.V /\ ret' = y.ret
    /\ UNCHANGED <<psdP, psdV, welP, welV, frV>>
DoEst(c) ==
    /\ ret' = IF wtV = None THEN "AttributeError" ELSE c.op \o SubSeq(wtV, 8, Len(wtV))
    /\ UNCHANGED <<wtP, wtV, mfP, mfV, psdP, psdV, welP, welV, frV>>
Psd(p) == IF psdV # None /\ psdP = p THEN [P |-> psdP, V |-> psdV, ret |-> psdV]
          ELSE IF Fails(Tok("psd", p)) THEN [P |-> psdP, V |-> psdV, ret |-> Tok("psd", p)]
          ELSE [P |-> p, V |-> Tok("psd", p), ret |-> Tok("psd", p)]
DoPsd(c) == LET x == Psd(c.p) IN psdP' = x.P /\ psdV' = x.V /\ ret' = x.ret
            /\ UNCHANGED <<wtP, wtV, mfP, mfV, welP, welV, frV>>
DoWelch(c) ==
    /\ IF welV # None /\ welP = c.p THEN ret' = welV /\ UNCHANGED <<welP, welV>>
       ELSE IF Fails(Tok("welch", c.p)) THEN ret' = Tok("welch", c.p) /\ UNCHANGED <<welP, welV>>
       ELSE ret' = Tok("welch", c.p) /\ welP' = c.p /\ welV' = Tok("welch", c.p)
    /\ UNCHANGED <<wtP, wtV, mfP, mfV, psdP, psdV, frV>>
DoFractal(c) ==
    /\ LET x == Psd(c.psdof) IN psdP' = x.P /\ psdV' = x.V
    /\ ret' = Tok("fractal", c.p)
    /\ frV' = IF Fails(Tok("fractal", c.p)) THEN frV ELSE Tok("fractal", c.p)
    /\ UNCHANGED <<wtP, wtV, mfP, mfV, welP, welV>>

DoPlot(c) ==
    /\ LET x == Psd(c.psdof) IN psdP' = x.P /\ psdV' = x.V
    /\ IF welV # None /\ welP = c.wel THEN UNCHANGED <<welP, welV>> ELSE welP' = c.wel /\ welV' = Tok("welch", c.wel)
    /\ IF c.op = "plotpsd" THEN UNCHANGED frV ELSE frV' = Tok("fractal", c.p)
    /\ ret' = "nothing"
    /\ UNCHANGED <<wtP, wtV, mfP, mfV>>
Do(c) == /\ exp' = Result(st, c)
         /\ st' = Next2(st, c, Fails)
         /\ CASE c.op = "wavelet" -> DoWavelet(c)
              [] c.op = "mf" -> DoMF(c)
              [] c.op = "full" -> DoFull(c)
              [] c.op \in {"hurst", "hmin"} -> DoEst(c)
              [] c.op = "psd" -> DoPsd(c)
              [] c.op = "welch" -> DoWelch(c)
              [] c.op = "fractal" -> DoFractal(c)
              [] c.op \in {"plotpsd", "plotfractal"} -> DoPlot(c)
Next == \E c \in Calls : Do(c)
Spec == Init /\ [][Next]_vars

Fresh == ret = exp
Attributes == LET h == Held(st) IN /\ h.wt_transform = wtV /\ h.multi_fractal = mfV /\ h.wt_psd = psdV
                                   /\ h.welch_psd = welV /\ h.fractal = frV
\* ret and exp are outputs: one state per cache content is enough
View == <<st, wtP, wtV, mfP, mfV, psdP, psdV, welP, welV, frV, ret = exp>>
=============================================================================
