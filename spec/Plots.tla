------------------------------- MODULE Plots -------------------------------
(***************************************************************************)
(* What a plot shows, as an abstract canvas: a set of panels, each a       *)
(* sequence of curves [x, y] and the numbers its legend prints.  Colours,  *)
(* positions, fonts and the order of the panels are left open.             *)
(*   panel : [ylab |-> numbers in its y label, text |-> its y label,       *)
(*            title |-> its title, xlab |-> ...,                           *)
(*            lines |-> <<[x |-> numbers, y |-> numbers]>>,                *)
(*            legend |-> <<numbers ending the legend's entries>>,          *)
(*            entries |-> <<texts of the legend>>]                         *)
(***************************************************************************)
EXTENDS Tensor, FiniteSets

\* a printed number with d decimals
Printed(x, v, halfulp) == \/ IsNaN(x) /\ IsNaN(v)
                          \/ NLeq(NAbs(NSub(x, v)), NAdd(halfulp, NMul("1.0E-9", NAbs(v))))
SameCurve(l, x, y) == NearSeqTol(l.x, x, "0.0", "1.0E-9") /\ NearSeqTol(l.y, y, NMag(y), "1.0E-9")
HasCurve(p, x, y) == \E i \in 1..Len(p.lines) : SameCurve(p.lines[i], x, y)
\* the straight line slope * x + b drawn from j1 to j2
FitLine(l, j1, j2, slope, b) ==
    /\ Len(l.x) >= 2
    /\ \E i \in 1..Len(l.x) : NEq(l.x[i], j1)
    /\ \E i \in 1..Len(l.x) : NEq(l.x[i], j2)
    /\ \A i \in 1..Len(l.x) : /\ NLeq(j1, l.x[i]) /\ NLeq(l.x[i], j2)
                              /\ NNearTol(l.y[i], NAdd(NMul(slope, l.x[i]), b), NAdd(NAbs(NMul(slope, j2)), NAbs(b)), "1.0E-9")
HasFit(p, j1, j2, slope, b) == \E i \in 1..Len(p.lines) : FitLine(p.lines[i], j1, j2, slope, b)
Legend(p, v, halfulp) == \E i \in 1..Len(p.legend) : Printed(p.legend[i], v, halfulp)

(***************************************************************************)
(* A panel showing one estimate: e = [id, x, y, slope, b, shown]           *)
(*   shown: the number the legend reports.                                 *)
(***************************************************************************)
Shows(p, e, j1, j2, halfulp) ==
    Chk("curve", HasCurve(p, e.x, e.y))
    \cup Chk("fit", HasFit(p, j1, j2, e.slope, e.b))
    \cup Chk("legend", Legend(p, e.shown, halfulp))
    \cup Chk("extra", Len(p.lines) = 2)
\* one panel per estimate, and nothing else
Panels(panels, es, Labelled(_, _), j1, j2, halfulp) ==
    Chk("count", Len(panels) = Len(es))
    \cup UNION {LET own == {k \in 1..Len(panels) : Labelled(panels[k], es[i])} IN
                IF own = {} THEN {"missing"}
                ELSE IF \E k \in own : Shows(panels[k], es[i], j1, j2, halfulp) = {} THEN {}
                ELSE Shows(panels[CHOOSE k \in own : TRUE], es[i], j1, j2, halfulp)
               : i \in 1..Len(es)}
    \cup Chk("foreign", \A k \in 1..Len(panels) : \E i \in 1..Len(es) : Labelled(panels[k], es[i]))

(* a spectral density on logarithmic axes, restricted to 0 < f < cut *)
LogOf(log, v) == IF log = "log2" THEN NLog2(v) ELSE NLn(v)
Shown(f, cut) == SelectSeq([i \in 1..Len(f) |-> i], LAMBDA i : ~NEq(f[i], "0.0") /\ NLt(f[i], cut))
LogCurve(f, s, log, cut) == LET k == Shown(f, cut) IN
    [x |-> [i \in 1..Len(k) |-> LogOf(log, f[k[i]])], y |-> [i \in 1..Len(k) |-> LogOf(log, s[k[i]])]]

(* Several subjects (rows of one segment), each with its own band of a      *)
(* common frequency grid: the average is over the band all of them have.    *)
MaxOf(t) == CHOOSE v \in {t[i] : i \in 1..Len(t)} : \A i \in 1..Len(t) : NLeq(t[i], v)
MinOf(t) == CHOOSE v \in {t[i] : i \in 1..Len(t)} : \A i \in 1..Len(t) : NLeq(v, t[i])
CommonBand(f) == [lo |-> MaxOf([k \in 1..Len(f) |-> MinOf(f[k])]), hi |-> MinOf([k \in 1..Len(f) |-> MaxOf(f[k])])]
InBand(f, b) == SelectSeq([i \in 1..Len(f) |-> i], LAMBDA i : NLeq(b.lo, f[i]) /\ NLeq(f[i], b.hi))
Average(f, s) ==
    LET b == CommonBand(f)
        own == [k \in 1..Len(f) |-> InBand(f[k], b)]
    IN [f |-> [i \in 1..Len(own[1]) |-> f[1][own[1][i]]],
        s |-> [i \in 1..Len(own[1]) |-> NDiv(NSum([k \in 1..Len(f) |-> s[k][own[k][i]]]), Len(f))]]
=============================================================================
