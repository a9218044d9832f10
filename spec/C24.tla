-------------------------------- MODULE C24 --------------------------------
(***************************************************************************)
(* C24  An edge loop becomes a closed polygon without repeated vertices.   *)
(* Model state: nothing.  Event: a loop, its edges and its polygon.        *)
(*                                                                         *)
(* The edges recorded are those for which adaptive sampling has no choice: *)
(* straight ones (two samples), curves of degree two and circles, where    *)
(* all intervals of one size deviate alike from their chords (generators   *)
(* keep the tolerance away from the deviations that occur).  The polygon   *)
(* is then determined by the machine of Loops.tla.                         *)
(***************************************************************************)
EXTENDS Curves, Loops, Conform

Coincide(p, q) == RLe(VDist2(p, q), RFrac(1, 10000000))

\* deviation from its chord, at the middle, of the interval of size h = (b - a) / 2^k
Deviation2(c, h) ==
    CASE c.kind = "bezier" /\ Len(c.ps) = 3 ->
           RMul(VNorm2(VAdd(VSub(c.ps[1], VScale(RInt(2), c.ps[2])), c.ps[3])), RDiv(RPow(h, 4), RInt(16)))
      [] c.kind = "bspline" /\ c.p = 2 ->
           RMul(VNorm2(VAdd(VSub(c.ps[1], VScale(RInt(2), c.ps[2])), c.ps[3])),
                RDiv(RPow(RDiv(h, RSub(c.t[4], c.t[3])), 4), RInt(16)))
      [] c.kind = "circle" -> Square(RMul(c.r, RSub(RInt(1), Cos(RDiv(h, RInt(2))))))
      [] OTHER -> RInt(0)
RECURSIVE Levels(_, _, _)
Levels(c, h, tol) == IF RLt(Deviation2(c, h), Square(tol)) THEN 0 ELSE 1 + Levels(c, RDiv(h, RInt(2)), tol)

Samples(g) ==
    LET c == CurveOf(g.c)  a == F64(g.a)  b == F64(g.b)
        n == Pow2(Levels(c, RSub(b, a), F64(g.tol)))
    IN TLCEval([i \in 1 .. n + 1 |-> VRound(CurveAt(c, VLerp(<<a>>, <<b>>, RFrac(i - 1, n))[1]), 60)])

RECURSIVE Feed(_, _, _)
Feed(kept, ss, i) == IF i > Len(ss) THEN kept ELSE Feed(Take(Coincide, kept, ss[i]), ss, i + 1)
RECURSIVE Walk(_, _, _)
Walk(kept, edges, i) == IF i > Len(edges) THEN kept ELSE Walk(TLCEval(Feed(kept, Samples(edges[i]), 1)), edges, i + 1)

JudgeC24(e, s) ==
    IF ~AllVec(e.out, 3) THEN No("the polygon of a loop is not finite")
    ELSE LET want == CloseUp(Coincide, Walk(<<>>, e.edges, 1))
             got == FVs(e.out)
             tol == Slack(PMax(want \o got))
         IN IF Len(got) > Len(want) THEN No("the polygon has more vertices than the loop: a repeated vertex is left")
            ELSE IF Len(got) < Len(want) THEN No("a vertex of the loop is missing in the polygon")
            ELSE Expect(\A i \in 1 .. Len(got) : VNear(got[i], want[i], tol), s, "the polygon does not follow the edges in order")
=============================================================================
