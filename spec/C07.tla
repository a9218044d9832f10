-------------------------------- MODULE C07 --------------------------------
(***************************************************************************)
(* C07  Projection onto lines, circles and polylines finds a nearest point.*)
(* Model state: the curve.  Events: project(point) -> parameter.           *)
(***************************************************************************)
EXTENDS Curves, Conform

InRange(c, u, slack) ==
    CASE c.kind = "circle"   -> RSign(u) >= 0 /\ RLe(u, RAdd(TwoPi, RPow2(-52)))
      [] c.kind = "polyline" -> RSign(u) >= 0 /\ RLe(u, RInt(1))
      [] c.kind = "bezier"   -> RSign(u) >= 0 /\ RLe(u, RInt(1))
      [] c.kind = "bspline"  -> RLe(First(c.t), RAdd(u, slack)) /\ RLe(u, RAdd(Last(c.t), slack))
      [] OTHER -> TRUE

\* exactly in the reference direction the angle is 0, not a full turn; for frames
\* along the coordinate axes doubles know that
Upright(v) == \A i \in 1 .. 3 : REq(v[i], RInt(0)) \/ REq(RAbs(v[i]), RInt(1))
FullTurn(o, axis, x, q, u) ==
    LET v == VSub(q, o)
    IN /\ Upright(axis) /\ Upright(x)
       /\ RSign(VDot(v, VCross(axis, x))) = 0 /\ RSign(VDot(v, x)) > 0
       /\ RLe(RInt(6), u)

\* the library goes from a parameter to a point and back with doubles, so the
\* size of the parameter's rounding along the curve counts
JudgeC07(e, c) ==
    IF e.op = "curve" THEN Ok(CurveOf(e.c))
    ELSE IF ~IsNum(e.u) THEN No("a projection is not finite")
    ELSE LET u == F64(e.u)
             q == FV(e.q)
             size == RMax(CurveSize(c), VMax(q))
             tol == Relative(RMul(RInt(4), size))
             best == RSqrt(Nearest2(c, q), SqrtBits)
             got == VLen(VSub(CurveAt(c, u), q), SqrtBits)
         IN IF ~InRange(c, u, Slack(size)) THEN No("projection onto a " \o c.kind \o " leaves the parameter range: " \o RDec(u))
            ELSE IF c.kind = "circle" /\ FullTurn(c.o, c.axis, c.x, q, u) THEN No("projection onto a circle gives a full turn instead of 0")
            ELSE Expect(RLe(got, RAdd(best, tol)), c,
                        "projection onto a " \o c.kind \o " is not nearest: distance " \o RDec(got)
                        \o ", nearest " \o RDec(best))
=============================================================================
