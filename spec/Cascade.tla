------------------------------- MODULE Cascade -------------------------------
(***************************************************************************)
(* wavelet_analysis as a state machine: one action per scale.              *)
(*   req     the request: [n, R, L, hi, lo, form, p, norm, gamint, maxlevel]*)
(*           (hi, lo: filters reversed in time; R realisations)            *)
(*   low     low-pass sequences at the current scale, one per realisation  *)
(*   j       number of scales whose filtering has been completed           *)
(*   coefs   coefs[j][r] : coefficients of scale j, realisation r          *)
(*   tree    tree[r] : aggregates over dyadic sub-trees at scale j         *)
(*   leaders leaders[j][r]                                                 *)
(*   phase   "idle", "run", "stopped"                                      *)
(* The effective maximum scale is `top`.                                   *)
(***************************************************************************)
EXTENDS Wavelet
VARIABLES req, low, j, coefs, tree, leaders, phase, top
cvars == <<req, low, j, coefs, tree, leaders, phase, top>>

MINCOUNT == 3

CIdle == /\ req = <<>> /\ low = <<>> /\ j = 0 /\ coefs = <<>> /\ tree = <<>> /\ leaders = <<>>
         /\ phase = "idle" /\ top = 0

Start(q, signal) ==
    /\ phase = "idle"
    /\ req' = q /\ low' = signal /\ j' = 0 /\ coefs' = <<>> /\ tree' = <<>> /\ leaders' = <<>>
    /\ phase' = "run" /\ top' = q.maxlevel

\* what the filter bank produces next
NextDetail == TLCEval([r \in 1..req.R |->
                 LET f == ScaleFactor(j + 1, req.norm, req.gamint)
                 IN NScaleSeq(Filtered(low[r], req.hi), f)])
NextLow == TLCEval([r \in 1..req.R |-> Filtered(low[r], req.lo)])
WithLeaders == req.form # "wavelet coef"
\* the scale as seen by the rest of the cascade: `det` is NextDetail, or the
\* logged coefficients when a trace is being validated
TreeOf(det) == IF ~WithLeaders THEN <<>>
               ELSE TLCEval([r \in 1..req.R |-> Tree(req.form, req.p, j + 1, det[r], IF j = 0 THEN <<>> ELSE tree[r])])
LeadersOf(tr) == IF ~WithLeaders THEN <<>>
                 ELSE TLCEval([r \in 1..req.R |-> Neighbours(req.form, req.p, j + 1, tr[r])])
MinValid(x) == MinOver(req.R, LAMBDA r : ValidCount(x[r]))

CanScale == phase = "run" /\ j < req.maxlevel
\* a scale with too few coefficients ends the analysis: nothing is kept of it
StopAtCoefs(det) ==
    /\ CanScale /\ MinValid(det) < MINCOUNT
    /\ phase' = "stopped" /\ top' = j
    /\ UNCHANGED <<req, low, j, coefs, tree, leaders>>
\* enough coefficients, too few leaders: the coefficients are kept, the
\* leaders are not and the analysis ends
StopAtLeaders(det, tr, ld) ==
    /\ CanScale /\ MinValid(det) >= MINCOUNT /\ WithLeaders /\ MinValid(ld) < MINCOUNT
    /\ coefs' = Append(coefs, det)
    /\ phase' = "stopped" /\ top' = j
    /\ UNCHANGED <<req, low, j, tree, leaders>>
Scale(det, lw, tr, ld) ==
    /\ CanScale /\ MinValid(det) >= MINCOUNT /\ (WithLeaders => MinValid(ld) >= MINCOUNT)
    /\ coefs' = Append(coefs, det) /\ low' = lw /\ tree' = tr
    /\ leaders' = IF WithLeaders THEN Append(leaders, ld) ELSE leaders
    /\ j' = j + 1
    /\ UNCHANGED <<req, phase, top>>
Exhausted == /\ phase = "run" /\ j >= req.maxlevel
             /\ phase' = "stopped"
             /\ UNCHANGED <<req, low, j, coefs, tree, leaders, top>>

\* effective upper scale for a requested one ("none" or a number)
EffectiveJ2(t, j2) == IF j2 = "none" THEN t ELSE NFloor(NMin(t, j2))
=============================================================================
