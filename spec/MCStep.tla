------------------------------- MODULE MCStep -------------------------------
(***************************************************************************)
(* The edges of one bound: written by choosing, step by step along the     *)
(* boundary 1 -> 2 -> ... -> N -> 1, how each step is stored (kind of      *)
(* curve, curve along or against the edge, edge along or against the       *)
(* step), and at last whether the loop is listed forwards or backwards;    *)
(* then read back edge by edge.  Invariants: what is read is the boundary  *)
(* whatever the flags; each edge is walked in the sense of increasing      *)
(* parameter exactly if edge and curve sense agree with the walk.          *)
(* All combinations are scenarios.                                         *)
(***************************************************************************)
EXTENDS StepLoop, TLC

CONSTANTS MaxEdges, Kinds
VARIABLES n, steps, bound, sense, hole, read, phase
vars == <<n, steps, bound, sense, hole, read, phase>>

Target(i) == (i % n) + 1
\* a single edge is closed; two edges are not both straight
Possible(ks) == /\ n = 1 => ks[1] # 0
                /\ n = 2 => ~(ks[1] = 0 /\ ks[2] = 0)

Init == /\ n \in 1 .. MaxEdges /\ steps = <<>> /\ read = <<>> /\ phase = "write"
        /\ bound \in BOOLEAN /\ sense \in BOOLEAN /\ hole \in BOOLEAN
Write == /\ phase = "write" /\ Len(steps) < n
         /\ \E k \in Kinds, along \in BOOLEAN, rev \in BOOLEAN :
              steps' = Append(steps, [k |-> k, along |-> along, rev |-> rev])
         /\ UNCHANGED <<n, bound, sense, hole, read, phase>>
Close == /\ phase = "write" /\ Len(steps) = n /\ Possible([i \in 1 .. n |-> steps[i].k])
         /\ phase' = "read"
         /\ UNCHANGED <<n, steps, bound, sense, hole, read>>

\* the file: the list of oriented edges
EdgeOf(i) == LET p == <<i, Target(i)>> IN IF steps[i].rev THEN Swap(p) ELSE p
\* does the curve's parameter grow along the edge?
SameSense(i) == steps[i].along # steps[i].rev
Listed(k) == IF bound THEN k ELSE n + 1 - k
FlagOf(i) == ~steps[i].rev = bound

Read == /\ phase = "read" /\ Len(read) < n
        /\ LET i == Listed(Len(read) + 1) IN read' = Append(read, [e |-> EdgeOf(i), flag |-> FlagOf(i), same |-> SameSense(i), i |-> i])
        /\ UNCHANGED <<n, steps, bound, sense, hole, phase>>
Next == Write \/ Close \/ Read
Spec == Init /\ [][Next]_vars

Done == phase = "read" /\ Len(read) = n
Walk == WalkOf([i \in 1 .. n |-> read[i].e], [i \in 1 .. n |-> read[i].flag], bound)
\* n = 2: the two steps differ although their ends are the same pair
IsBoundary == Done => Walk = [i \in 1 .. n |-> <<i, Target(i)>>] /\ Chained(Walk)
\* the flags alone say whether the parameter grows along the walk
Grows == Done => \A i \in 1 .. n : LET r == read[i] IN ((r.same = r.flag) = bound) = steps[r.i].along

Bit(b) == IF b THEN " 1" ELSE " 0"
RECURSIVE Text(_)
Text(i) == IF i > n THEN "" ELSE " " \o ToString(steps[i].k) \o Bit(steps[i].along) \o Bit(steps[i].rev) \o Text(i + 1)
Emit == (phase = "read" /\ read = <<>>) => PrintT("@@SCN " \o ToString(n) \o Bit(bound) \o Bit(sense) \o Bit(hole) \o Text(1))
=============================================================================
