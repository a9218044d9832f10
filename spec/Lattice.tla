------------------------------ MODULE Lattice ------------------------------
(* Predicates on points with integer coordinates. *)
EXTENDS Integers, Sequences

ITurn(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
IOn(a, b, x) == /\ ITurn(a, b, x) = 0
                /\ LET k == (x[1] - a[1]) * (b[1] - a[1]) + (x[2] - a[2]) * (b[2] - a[2])
                   IN k >= 0 /\ k <= (b[1] - a[1]) * (b[1] - a[1]) + (b[2] - a[2]) * (b[2] - a[2])
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN -1 ELSE 0
\* closed segments ab and cd have a common point
Meet(a, b, c, d) ==
    \/ IOn(a, b, c) \/ IOn(a, b, d) \/ IOn(c, d, a) \/ IOn(c, d, b)
    \/ /\ Sgn(ITurn(a, b, c)) * Sgn(ITurn(a, b, d)) < 0
       /\ Sgn(ITurn(c, d, a)) * Sgn(ITurn(c, d, b)) < 0
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
=============================================================================
