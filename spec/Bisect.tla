------------------------------- MODULE Bisect -------------------------------
(***************************************************************************)
(* Adaptive division as a state machine: `todo' is a stack of intervals    *)
(* still to do, `done' the boundaries of the accepted ones.  The interval  *)
(* on top is accepted when the curve is flat on it, else replaced by its   *)
(* two halves.  Here the curve bends at the points of a set K only, so an  *)
(* interval is flat iff it has no point of K inside.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

Flat(K, a, b) == \A k \in K : ~(a < k /\ k < b)

\* the boundaries the machine accepts in the end, after a
RECURSIVE Leaves(_, _, _)
Leaves(K, a, b) == IF Flat(K, a, b) THEN <<b>>
                   ELSE LET m == (a + b) \div 2 IN Leaves(K, a, m) \o Leaves(K, m, b)
=============================================================================
