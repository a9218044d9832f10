------------------------------ MODULE StepLoop ------------------------------
(***************************************************************************)
(* How the orientation flags of STEP topology act, as a reader meets them. *)
(* An edge has a start and an end; an oriented edge is the edge or (F) the *)
(* edge backwards; a bound is the list of oriented edges of its loop or    *)
(* (F) that loop backwards.  A walk is a sequence of pairs <<from, to>>.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Swap(e) == <<e[2], e[1]>>
Orient(e, flag) == IF flag THEN e ELSE Swap(e)
Bound(walk, flag) == IF flag THEN walk ELSE [i \in 1 .. Len(walk) |-> Swap(walk[Len(walk) + 1 - i])]
\* edges with their flags, in the order of the file's list
WalkOf(edges, flags, bound) == Bound([i \in 1 .. Len(edges) |-> Orient(edges[i], flags[i])], bound)
Chained(walk) == \A i \in 1 .. Len(walk) : walk[i][2] = walk[(i % Len(walk)) + 1][1]
=============================================================================
