---------------------------- MODULE Gen_Workspace ----------------------------
(***************************************************************************)
(* Behaviours to replay on the real object (TLC -simulate): sequences of   *)
(* Depth calls over a small palette of parameters, so that parameters      *)
(* recur and caches are hit.                                               *)
(***************************************************************************)
EXTENDS Workspace, Json, FiniteSets, Randomization, IOUtils
VARIABLES h, pal
Depth == atoi(IOEnv.DEPTH)
N(pre, k) == {pre \o ToString(i) : i \in 0..k}
\* families of transforms: the base "0" and variants that differ from it in one parameter
Kinds == {"c", "l", "p"}
Variants == {"0", "j1", "j2", "norm", "gam", "wei", "wt", "p"}
Family(k) == {k \o v : v \in Variants}
W == N("w", 16) \cup UNION {Family(k) : k \in Kinds}
M == N("m", 10)
P == N("p", 6)
F == N("f", 5)
PsdOf == [f0 |-> "p0", f1 |-> "p1", f2 |-> "p0", f3 |-> "p0", f4 |-> "p0", f5 |-> "p6", xf0 |-> "p1", xf1 |-> "xp0"]
Calls == CallsOf(W \cup {"x0", "x1"}, M \cup {"xm0", "xm1"}, P \cup {"xp0"}, F \cup {"xf0", "xf1"}, PsdOf) \cup PlotsOf(P, F, PsdOf)
Pick(n, S) == RandomSubset(n, S)
Init == /\ h = <<>>
        /\ pal \in {[w |-> (IF i % 3 = 0 THEN Pick(3, N("w", 16)) ELSE LET k == CHOOSE k \in Pick(1, Kinds) : TRUE IN {k \o "0"} \cup Pick(2, Family(k)))
                          \cup Pick(1, {"x0", "x1"}), m |-> Pick(3, M) \cup Pick(1, {"xm0", "xm1"}),
                     p |-> Pick(3, P) \cup Pick(1, {"xp0"}), f |-> Pick(3, F) \cup Pick(1, {"xf0", "xf1"})] : i \in 1..400}
Allowed(c) == /\ c.w \in pal.w \cup {""}
              /\ c.m \in pal.m \cup {""}
              /\ c.p \in pal.p \cup pal.f \cup {""}
              /\ c.wel \in pal.p \cup {""}
              /\ c.op \in {"plotpsd"} => c.psdof \in pal.p
Op(o) == /\ Len(h) < Depth
         /\ \E c \in {x \in Calls : x.op = o /\ Allowed(x)} : h' = Append(h, c)
         /\ UNCHANGED pal
Wavelet == Op("wavelet")
MF == Op("mf")
MF2 == Op("mf")
Full == Op("full")
Hurst == Op("hurst")
Hmin == Op("hmin")
Psd == Op("psd")
Welch == Op("welch")
Fractal == Op("fractal")
\* a single last step, so that one behaviour of a simulation is printed once
Done == Len(h) = Depth /\ h' = Append(h, "end") /\ UNCHANGED pal
Plot == Op("plotpsd")
Plot2 == Op("plotfractal")
Next == Done \/ Wavelet \/ MF \/ MF2 \/ Full \/ Hurst \/ Hmin \/ Psd \/ Welch \/ Fractal \/ Plot \/ Plot2
Emit == Len(h) <= Depth \/ PrintT("BEH " \o ToJson(SubSeq(h, 1, Depth)))
=============================================================================
