-------------------------------- MODULE C06 --------------------------------
(***************************************************************************)
(* C06  Lines, circles and polylines evaluate to their definition.         *)
(* Model state: the curve.  Events: eval(u), directly and through a box.   *)
(***************************************************************************)
EXTENDS Curves, Conform

Reach(c, u) == CASE c.kind = "line" -> RAdd(RInt(1), RAbs(u)) [] OTHER -> RInt(1)

JudgeC06(e, c) ==
    IF e.op = "curve" THEN Ok(CurveOf(e.c))
    ELSE IF e.op = "polyline" THEN
        LET n == Len(c.vs)
            ls == [i \in 1 .. n - 1 |-> RSqrt(VDist2(c.vs[i], c.vs[i + 1]), SqrtBits)]
            tol == Relative(CurveSize(c))
        IN IF ~AllVec(e.vs, 3) \/ Len(e.vs) # n \/ \E i \in 1 .. n : ~VSame(FV(e.vs[i]), c.vs[i])
           THEN No("a polyline does not keep its vertices")
           ELSE IF ~VSame(FV(e.start), c.vs[1]) \/ ~VSame(FV(e.end), c.vs[n]) THEN No("a polyline starts or ends elsewhere")
           ELSE Expect(/\ AllNum(e.lengths) /\ Len(e.lengths) = n - 1
                       /\ \A i \in 1 .. n - 1 : Near(F64(e.lengths[i]), ls[i], tol)
                       /\ IsNum(e.length) /\ Near(F64(e.length), RSum(ls), RMul(RInt(n), tol)), c,
                       "the lengths of a polyline are wrong")
    ELSE IF ~IsVec(e.out, 3) \/ ~IsVec(e.boxed, 3) THEN No("a curve point is not finite")
    ELSE LET u == F64(e.u)
             want == CurveAt(c, u)
             tol == RMul(Relative(CurveSize(c)), Reach(c, u))
         IN IF ~VNear(FV(e.out), want, tol)
            THEN No("a point of a " \o c.kind \o " is wrong: x is " \o RDec(F64(e.out[1])) \o ", should be " \o RDec(want[1]))
            ELSE Expect(VSame(FV(e.boxed), FV(e.out)), c, "a boxed curve evaluates differently")
=============================================================================
