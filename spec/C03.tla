-------------------------------- MODULE C03 --------------------------------
(***************************************************************************)
(* C03  Derivative curves and surfaces are the true derivatives.           *)
(* Model state: the original object.  Events: the value at u (or u, v) of  *)
(* the object after taking derivatives k (or ku and kv) times.             *)
(***************************************************************************)
EXTENDS Spline, Conform

MinSpan(t) == LET S == {i \in 1 .. Len(t) - 1 : RLt(t[i], t[i + 1])}
                  m == CHOOSE i \in S : \A j \in S : RLe(RSub(t[i + 1], t[i]), RSub(t[j + 1], t[j]))
              IN RSub(t[m + 1], t[m])

\* bound of a k-th derivative per unit of control point size
Growth(t, p, k) == RPow(RAdd(RInt(1), RDiv(RInt(2 * (p + 1)), MinSpan(t))), k)

Object(e) ==
    CASE e.op = "bezier"  -> [kind |-> "curve", t |-> BezierKnots(Len(e.ps) - 1), p |-> Len(e.ps) - 1, ps |-> FVs(e.ps)]
      [] e.op = "bspline" -> [kind |-> "curve", t |-> FV(e.t), p |-> e.p, ps |-> FVs(e.ps)]
      [] e.op = "surface" -> [kind |-> "surface", t |-> FV(e.t), s |-> FV(e.s), p |-> e.p, q |-> e.q,
                              net |-> TLCEval([i \in 1 .. Len(e.net) |-> FVs(e.net[i])])]

\* derivatives are polynomial: a rational object's homogeneous coordinates are
\* differentiated, and evaluation divides by the last one
Affine(h) == IF Len(h) = 4 THEN Project(h) ELSE h
Size(o) == IF o.kind = "curve" THEN PMax(o.ps)
           ELSE LET RECURSIVE NM(_)
                    NM(i) == IF i > Len(o.net) THEN RInt(0) ELSE RMax(PMax(o.net[i]), NM(i + 1))
                IN NM(1)

JudgeC03(e, s) ==
    CASE e.op \in {"bezier", "bspline", "surface"} -> Ok(Object(e))
      [] e.op = "der" ->
           IF e.deg # s.p - e.k THEN No("the derivative does not have one degree less")
           ELSE IF ~IsVec(e.out, 3) THEN No("a derivative is not finite")
           ELSE LET want == BSplineDerAt(s.t, s.p, s.ps, F64(e.u), e.k)
                    tol == RMul(Slack(Size(s)), Growth(s.t, s.p, e.k))
                IN Expect(VNear(FV(e.out), want, tol), s,
                          "derivative of order " \o ToString(e.k) \o " differs: x is "
                          \o RDec(F64(e.out[1])) \o ", should be " \o RDec(want[1]))
      [] e.op = "sder" ->
           IF ~IsVec(e.out, 3) THEN No("a partial derivative is not finite")
           ELSE LET zero == e.ku > s.p \/ e.kv > s.q
                    want == IF zero THEN Zero3
                            ELSE NetComb(BasisDer(s.t, s.p, F64(e.u), e.ku), BasisDer(s.s, s.q, F64(e.v), e.kv), s.net)
                    tol == RMul(Slack(Size(s)), RMul(Growth(s.t, s.p, e.ku), Growth(s.s, s.q, e.kv)))
                IN Expect(VNear(FV(e.out), want, tol), s,
                          "partial derivative (" \o ToString(e.ku) \o "," \o ToString(e.kv) \o ") differs: x is "
                          \o RDec(F64(e.out[1])) \o ", should be " \o RDec(want[1]))
=============================================================================
