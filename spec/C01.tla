-------------------------------- MODULE C01 --------------------------------
(***************************************************************************)
(* C01  Free-form curve evaluation equals the mathematical curve.          *)
(* Model state: the curve.  Events: eval(u).                               *)
(***************************************************************************)
EXTENDS Spline, Conform

Curve(e) ==
    IF e.op = "bezier"
    THEN [kind |-> "bezier", ps |-> FVs(e.ps), rat |-> e.rat]
    ELSE [kind |-> "bspline", ps |-> FVs(e.ps), rat |-> e.rat, t |-> FV(e.t), p |-> e.p]

At(c, u) ==
    LET q == IF c.kind = "bezier" THEN BezierAt(c.ps, u) ELSE BSplineAt(c.t, c.p, c.ps, u)
    IN IF c.rat THEN Project(q) ELSE q

\* condition of the evaluation: how far the parameter lies outside the domain
Spread(c, u) ==
    IF c.kind = "bezier"
    THEN LET out == RMax(RInt(0), RMax(RNeg(u), RSub(u, RInt(1))))
         IN IF RSign(out) = 0 THEN RInt(1) ELSE RPow(RAdd(RInt(1), RMul(RInt(2), out)), Len(c.ps) - 1)
    ELSE LET len == RSub(Last(c.t), First(c.t))
             out == RMax(RInt(0), RMax(RSub(First(c.t), u), RSub(u, Last(c.t))))
         IN IF RSign(out) = 0 THEN RInt(1)
            ELSE RPow(RAdd(RInt(1), RDiv(RMul(RInt(2 * Len(c.t)), out), len)), c.p)

JudgeC01(e, s) ==
    IF e.op \in {"bezier", "bspline"} THEN Ok(Curve(e))
    ELSE IF ~IsVec(e.out, 3) THEN No("a curve point is not finite")
    ELSE LET u == F64(e.u)
             want == At(s, u)
             tol == RMul(Relative(PMax(s.ps)), Spread(s, u))
         IN Expect(VNear(FV(e.out), want, tol), s,
                   "curve point differs from the definition: x is " \o RDec(F64(e.out[1]))
                   \o ", should be " \o RDec(want[1]))
=============================================================================
