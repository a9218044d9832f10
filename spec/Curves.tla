------------------------------- MODULE Curves -------------------------------
(***************************************************************************)
(* Curves of every kind as abstract objects: CurveOf reads a recorded one, *)
(* CurveAt gives the point at a parameter, Nearest2 the distance from a    *)
(* point to lines, circles and polylines.                                  *)
(***************************************************************************)
EXTENDS Spline, Trig

SqrtBits == 70

CurveOf(e) ==
    CASE e.kind = "line"     -> [kind |-> "line", o |-> FV(e.o), d |-> FV(e.d)]
      [] e.kind = "circle"   -> [kind |-> "circle", o |-> FV(e.o), r |-> F64(e.r), axis |-> FV(e.axis), x |-> FV(e.x)]
      [] e.kind = "polyline" -> LET vs == FVs(e.vs)
                                IN [kind |-> "polyline", vs |-> vs,
                                    ls |-> TLCEval([i \in 1 .. Len(vs) - 1 |-> VLen(VSub(vs[i + 1], vs[i]), SqrtBits)])]
      [] e.kind = "bezier"   -> [kind |-> "bezier", ps |-> FVs(e.ps)]
      [] e.kind = "bspline"  -> [kind |-> "bspline", p |-> e.p, t |-> FV(e.t), ps |-> FVs(e.ps)]

\* the point of a polyline at fraction t of its length
RECURSIVE Along(_, _, _, _)
Along(c, i, left, total) ==
    IF RLe(left, c.ls[i]) \/ i = Len(c.ls)
    THEN IF RSign(c.ls[i]) = 0 THEN c.vs[i] ELSE VLerp(c.vs[i], c.vs[i + 1], RMin(RInt(1), RDiv(left, c.ls[i])))
    ELSE Along(c, i + 1, RSub(left, c.ls[i]), total)
PolylineAt(c, t) ==
    IF RSign(t) <= 0 THEN c.vs[1]
    ELSE IF RLe(RInt(1), t) THEN c.vs[Len(c.vs)]
    ELSE LET total == RSum(c.ls) IN Along(c, 1, RMul(t, total), total)

Affine(h) == IF Len(h) = 4 THEN Project(h) ELSE h
CurveAt(c, u) ==
    CASE c.kind = "line"     -> VAdd(c.o, VScale(u, c.d))
      [] c.kind = "circle"   -> VAdd(c.o, VScale(c.r, Rotate(c.x, c.axis, u)))
      [] c.kind = "polyline" -> PolylineAt(c, u)
      [] c.kind = "bezier"   -> Affine(BezierAt(c.ps, u))
      [] c.kind = "bspline"  -> Affine(BSplineAt(c.t, c.p, c.ps, u))

\* size of the data, for the rounding allowance
CurveSize(c) ==
    CASE c.kind = "line"     -> RMax(VMax(c.o), VMax(c.d))
      [] c.kind = "circle"   -> RMax(VMax(c.o), c.r)
      [] c.kind = "polyline" -> PMax(c.vs)
      [] OTHER               -> PMax(c.ps)

-----------------------------------------------------------------------------
(* Squared distance from q to the nearest point.                           *)
SegmentDist2(a, b, q) ==
    LET ab == VSub(b, a)
        n  == VNorm2(ab)
        k  == IF RSign(n) = 0 THEN RInt(0)
              ELSE RMax(RInt(0), RMin(RInt(1), RDiv(VDot(VSub(q, a), ab), n)))
    IN VDist2(VLerp(a, b, k), q)

RECURSIVE ChainDist2(_, _, _)
ChainDist2(vs, q, i) ==
    LET d == SegmentDist2(vs[i], vs[i + 1], q)
    IN IF i = Len(vs) - 1 THEN d ELSE RMin(d, ChainDist2(vs, q, i + 1))

Square(a) == RMul(a, a)
Nearest2(c, q) ==
    CASE c.kind = "line" ->
           LET v == VSub(q, c.o)
           IN VDist2(v, VScale(RDiv(VDot(v, c.d), VNorm2(c.d)), c.d))
      [] c.kind = "circle" ->
           LET v == VSub(q, c.o)
               z == VDot(v, c.axis)
               rho == VLen(VSub(v, VScale(z, c.axis)), SqrtBits)
           IN RAdd(Square(z), Square(RSub(rho, c.r)))
      [] c.kind = "polyline" -> ChainDist2(c.vs, q, 1)
      [] OTHER -> ChainDist2(c.ps, q, 1)        \* degree 1: the control polygon
=============================================================================
