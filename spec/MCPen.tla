------------------------------- MODULE MCPen --------------------------------
(***************************************************************************)
(* Writing one composite curve as SVG path data, and the pen that reads    *)
(* it.  A composite curve runs through the points 0, 1, 2, ...; a segment  *)
(* is a line, a polyline, a cubic spline or a curve to be sampled, runs    *)
(* along its curve or against it, and may be only a part of it.  The       *)
(* writer goes through the segments and emits one command at a time; the   *)
(* pen carries it out.  What has been drawn must at any time be the strokes *)
(* 0-1, 1-2, ... up to the pen, each once, in order, of the right shape.   *)
(* Sequences of segments are scenarios.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS MaxSegments, Kinds, Strokes      \* Kinds \subseteq 0..3
KindSet == {0, 1, 2, 3}                    \* line, polyline, cubic, sampled
VARIABLES segs, phase, k, at, pen, drawn, empty
vars == <<segs, phase, k, at, pen, drawn, empty>>

\* a segment: kind, against the curve?, part of the curve?, strokes
Choices == {<<q, d, w, n>> \in Kinds \X {0, 1} \X {0, 1} \X Strokes : q = 0 => n = 1}
RECURSIVE Before(_)
Before(i) == IF i = 0 THEN 0 ELSE Before(i - 1) + segs[i][4]

Init == segs = <<>> /\ phase = "build" /\ k = 0 /\ at = 0 /\ pen = -1 /\ drawn = <<>> /\ empty = TRUE
Add == /\ phase = "build" /\ Len(segs) < MaxSegments
       /\ \E s \in Choices : segs' = Append(segs, s)
       /\ UNCHANGED <<phase, k, at, pen, drawn, empty>>
Save == /\ phase = "build" /\ phase' = "write" /\ k' = 1
        /\ UNCHANGED <<segs, at, pen, drawn, empty>>

\* the curve's own points are numbered from the other end when the segment runs against it
Own(s, i) == IF s[2] = 1 THEN s[4] - i ELSE i
\* the i-th point of a segment, in its direction, from the curve's own numbering
Point(i) == LET s == segs[k] IN Before(k - 1) + (IF s[2] = 1 THEN s[4] - Own(s, i) ELSE Own(s, i))

Move(p)      == pen' = p /\ drawn' = drawn
Stroke(p, q) == pen' = p /\ drawn' = IF p = pen THEN drawn ELSE Append(drawn, <<pen, p, q>>)

\* at = 0: the first point of the segment is due
Begin == /\ phase = "write" /\ k <= Len(segs) /\ at = 0
         /\ IF segs[k][1] = 3 /\ ~empty THEN Stroke(Point(0), "line") ELSE Move(Point(0))
         /\ at' = 1 /\ empty' = FALSE /\ UNCHANGED <<segs, phase, k>>
Step == /\ phase = "write" /\ k <= Len(segs) /\ at > 0
        /\ Stroke(Point(at), IF segs[k][1] = 2 THEN "cubic" ELSE "line")
        /\ IF at = segs[k][4] THEN at' = 0 /\ k' = k + 1 ELSE at' = at + 1 /\ k' = k
        /\ UNCHANGED <<segs, phase, empty>>
Next == Add \/ Save \/ Begin \/ Step
Spec == Init /\ [][Next]_vars

\* the segment a stroke belongs to
Of(i) == CHOOSE j \in 1 .. Len(segs) : Before(j - 1) < i /\ i <= Before(j)
Drawn == \A i \in 1 .. Len(drawn) :
            drawn[i] = <<i - 1, i, IF segs[Of(i)][1] = 2 THEN "cubic" ELSE "line">>
UpToPen == pen = (IF drawn = <<>> /\ at = 0 /\ k <= 1 THEN -1 ELSE Len(drawn))
Complete == (phase = "write" /\ k > Len(segs) /\ segs # <<>>) => Len(drawn) = Before(Len(segs))
RECURSIVE Flat(_)
Flat(i) == IF i > Len(segs) THEN ""
           ELSE " " \o ToString(segs[i][1]) \o " " \o ToString(segs[i][2]) \o " " \o ToString(segs[i][3]) \o " " \o ToString(segs[i][4]) \o Flat(i + 1)
Emit == (phase = "write" /\ k = 1 /\ at = 0) => PrintT("@@SCN " \o ToString(Len(segs)) \o Flat(1))
=============================================================================
