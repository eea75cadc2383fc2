------------------------------ MODULE MC_Plots ------------------------------
(***************************************************************************)
(* The canvas judgement of Plots.tla accepts the canonical canvas of any   *)
(* set of estimates in any panel order, and rejects every canvas with one  *)
(* defect: a wrong point, slope, end, label, legend, a missing, repeated   *)
(* or foreign panel.                                                       *)
(***************************************************************************)
EXTENDS Plots
CONSTANTS MaxEst, Scale1, Scale2
VARIABLES es, rot, defect, where
vars == <<es, rot, defect, where>>
Pool == <<[id |-> "-1.5", x |-> <<1, 2, 3, 4>>, y |-> <<"0.3", "1.1", "1.7", "2.9">>, slope |-> "0.82", b |-> "-0.55", shown |-> "0.82"],
          [id |-> "2.0", x |-> <<1, 2, 3, 4>>, y |-> <<"-3.0", "-1.5", "0.5", "1.0">>, slope |-> "1.4", b |-> "-4.25", shown |-> "1.4"],
          [id |-> "0.7", x |-> <<1, 2, 3, 4>>, y |-> <<"5.0", "5.0", "5.1", "5.3">>, slope |-> "0.1", b |-> "4.85", shown |-> "0.1"]>>
Defects == {"none", "point", "slope", "intercept", "end", "label", "legend", "dropline", "extraline", "droppanel", "duppanel", "swapcurve", "foreign"}
Init == es \in {<<>>} \cup {SubSeq(Pool, 1, k) : k \in 1..MaxEst} /\ rot = 0 /\ defect = "none" /\ where = 1
Next == \/ rot < Len(es) /\ rot' = rot + 1 /\ UNCHANGED <<es, defect, where>>
        \/ defect = "none" /\ es # <<>> /\ defect' \in (Defects \ {"none"}) /\ where' \in 1..Len(es) /\ UNCHANGED <<es, rot>>
Line(e) == [x |-> <<Scale1, Scale2>>, y |-> <<NAdd(NMul(e.slope, Scale1), e.b), NAdd(NMul(e.slope, Scale2), e.b)>>]
Panel(e) == [ylab |-> <<e.id>>, text |-> "", title |-> "", xlab |-> <<>>, lines |-> <<[x |-> e.x, y |-> e.y], Line(e)>>,
             legend |-> <<e.shown>>, entries |-> <<>>]
Canon == [i \in 1..Len(es) |-> Panel(es[((i - 1 + rot) % Len(es)) + 1])]
Bump(v) == NAdd(v, "0.1")
Hit(p) ==
    CASE defect = "point" -> [p EXCEPT !.lines[1].y[2] = Bump(@)]
      [] defect = "slope" -> [p EXCEPT !.lines[2].y[2] = Bump(@)]
      [] defect = "intercept" -> [p EXCEPT !.lines[2].y = NShiftSeq(@, "0.1")]
      [] defect = "end" -> [p EXCEPT !.lines[2] = [x |-> <<Scale1, Scale2 + 1>>, y |-> <<@.y[1], NAdd(@.y[2], NDiv(NSub(@.y[2], @.y[1]), Scale2 - Scale1))>>]]
      [] defect = "label" -> [p EXCEPT !.ylab = <<"17.0">>]
      [] defect = "legend" -> [p EXCEPT !.legend = <<Bump(@[1])>>]
      [] defect = "dropline" -> [p EXCEPT !.lines = <<@[1]>>]
      [] defect = "extraline" -> [p EXCEPT !.lines = @ \o <<@[1]>>]
      [] defect = "swapcurve" -> [p EXCEPT !.lines[1].y = Pool[3].y, !.lines[1].x = <<0, 1, 2, 3>>]
      [] OTHER -> p
Canvas == LET c == Canon IN
    IF defect = "droppanel" THEN [i \in 1..(Len(c) - 1) |-> c[IF i < where THEN i ELSE i + 1]]
    ELSE IF defect = "duppanel" THEN c \o <<c[where]>>
    ELSE IF defect = "foreign" THEN c \o <<[c[where] EXCEPT !.ylab = <<"99.0">>]>>
    ELSE [i \in 1..Len(c) |-> IF i = where THEN Hit(c[i]) ELSE c[i]]
Labelled(p, e) == \E i \in 1..Len(p.ylab) : Printed(p.ylab[i], e.id, "0.0005")
Verdict == IF es = <<>> THEN {} ELSE Panels(Canvas, es, Labelled, Scale1, Scale2, "0.000005")
Discriminates == (Verdict = {}) = (defect = "none")
=============================================================================
