------------------------------- MODULE MCLoop -------------------------------
(***************************************************************************)
(* Closed walks along a line of lattice points, where neighbouring points  *)
(* coincide within the tolerance: edges of every length around the         *)
(* tolerance, straight on and back.  Invariants of the polygon: no two     *)
(* cyclically adjacent vertices coincide; every sample that was dropped    *)
(* coincides with the vertex kept before it or with the first one.         *)
(* The walks are scenarios.                                                *)
(***************************************************************************)
EXTENDS Loops, TLC

CONSTANTS Points, MaxEdges
VARIABLES walk, phase, k, kept, dropped
vars == <<walk, phase, k, kept, dropped>>

Same(a, b) == a - b \in {-1, 0, 1}

Init == walk \in {<<p>> : p \in Points} /\ phase = "build" /\ k = 1 /\ kept = <<>> /\ dropped = {}
Add == /\ phase = "build" /\ Len(walk) < MaxEdges
       /\ \E p \in Points : walk' = Append(walk, p)
       /\ UNCHANGED <<phase, k, kept, dropped>>
Go == phase = "build" /\ phase' = "sample" /\ UNCHANGED <<walk, k, kept, dropped>>
\* edge k runs from point k to point k + 1, the last one back to the first: two samples each
N == Len(walk)
Sample(i) == LET e == (i + 1) \div 2 IN IF i % 2 = 1 THEN walk[e] ELSE walk[(e % N) + 1]
Next1 == /\ phase = "sample" /\ k <= 2 * N
         /\ kept' = Take(Same, kept, Sample(k))
         /\ dropped' = IF kept' = kept THEN dropped \cup {<<Sample(k), kept[Len(kept)]>>} ELSE dropped
         /\ k' = k + 1 /\ UNCHANGED <<walk, phase>>
Pop == /\ phase = "sample" /\ k > 2 * N
       /\ kept' = CloseUp(Same, kept)
       /\ dropped' = dropped \cup {<<kept[i], kept[1]>> : i \in Len(kept') + 1 .. Len(kept)}
       /\ phase' = "done" /\ UNCHANGED <<walk, k>>
Next == Add \/ Go \/ Next1 \/ Pop
Spec == Init /\ [][Next]_vars

Separate == \A i \in 1 .. Len(kept) - 1 : ~Same(kept[i], kept[i + 1])
Closed == phase = "done" /\ Len(kept) > 0 => ~Same(kept[1], kept[Len(kept)]) /\ Len(kept) > 1
OnlyDuplicates == \A d \in dropped : Same(d[1], d[2])
Visits == phase = "sample" /\ k > 2 * N => \A i \in 1 .. N : \E j \in 1 .. Len(kept) : Same(walk[i], kept[j])
RECURSIVE Text(_)
Text(i) == IF i > N THEN "" ELSE " " \o ToString(walk[i]) \o Text(i + 1)
Emit == (phase = "sample" /\ k = 1) => PrintT("@@SCN " \o ToString(N) \o Text(1))
=============================================================================
