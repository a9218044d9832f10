------------------------------- MODULE Planar -------------------------------
(* Plane geometry: segments, triangles, polygons (sequences of points).    *)
EXTENDS Curves

\* twice the signed area
RECURSIVE Area2From(_, _)
Area2From(ps, i) == IF i > Len(ps) THEN RInt(0)
                    ELSE RAdd(Perp(ps[i], ps[(i % Len(ps)) + 1]), Area2From(ps, i + 1))
Area2(ps) == Area2From(ps, 1)

\* the closed counter-clockwise triangle
InTriangle(a, b, c, p) == /\ RSign(Turn(a, b, p)) >= 0
                          /\ RSign(Turn(b, c, p)) >= 0
                          /\ RSign(Turn(c, a, p)) >= 0

Prev(n, i) == IF i = 1 THEN n ELSE i - 1
Next1(n, i) == IF i = n THEN 1 ELSE i + 1

\* 1 convex, -1 concave, 0 straight, 2 too close to tell
ClassTol == RFrac(1, 10000000)
TurnClass(a, b, c) ==
    LET s == Turn(a, b, c)
    IN IF RLt(RMul(RFrac(11, 10), ClassTol), s) THEN 1
       ELSE IF RLt(s, RMul(RFrac(-11, 10), ClassTol)) THEN -1
       ELSE IF RLt(RAbs(s), RMul(RFrac(9, 10), ClassTol)) THEN 0
       ELSE 2
=============================================================================
