-------------------------------- MODULE C13 --------------------------------
(***************************************************************************)
(* C13  Planar predicates and nearest-point helpers are exact up to        *)
(* rounding.  Every event is a call with its arguments and result; there   *)
(* is no state.                                                            *)
(***************************************************************************)
EXTENDS Planar, Conform

Inside(e) ==
    LET a == FV(e.a)  b == FV(e.b)  c == FV(e.c)  p == FV(e.p)
        ts == <<Turn(a, b, p), Turn(b, c, p), Turn(c, a, p)>>
        far == RFrac(-11, 100000000)
    IN IF \A i \in 1 .. 3 : RSign(ts[i]) >= 0 THEN (IF e.out THEN "" ELSE "a point of the closed triangle is rejected")
       ELSE IF \E i \in 1 .. 3 : RLt(ts[i], far) THEN (IF e.out THEN "a point outside the triangle is accepted" ELSE "")
       ELSE ""

Dist(e) ==
    IF ~IsNum(e.out) THEN "a distance to a segment is not finite"
    ELSE LET a == FV(e.a)  b == FV(e.b)  p == FV(e.p)
             want == RSqrt(SegmentDist2(a, b, p), SqrtBits)
             size == RMax(VMax(a), RMax(VMax(b), VMax(p)))
         IN IF Near(F64(e.out), want, Relative(size)) THEN ""
            ELSE "a distance to a segment is " \o RDec(F64(e.out)) \o ", should be " \o RDec(want)

Orientation(e) ==
    LET s == Area2(FVs(e.ps)) IN
    IF e.out = (RSign(s) > 0) THEN "" ELSE "the orientation of a polygon is not the sign of its area"

\* classes of the vertices of the polygon idx (numbers into ps, from 0)
Classes(ps, idx) == LET n == Len(idx) IN
    TLCEval([i \in 1 .. n |-> TurnClass(ps[idx[Prev(n, i)] + 1], ps[idx[i] + 1], ps[idx[Next1(n, i)] + 1])])
RECURSIVE Pick(_, _, _, _)
Pick(idx, cl, S, i) == IF i > Len(idx) THEN <<>>
                       ELSE (IF cl[i] \in S THEN <<idx[i]>> ELSE <<>>) \o Pick(idx, cl, S, i + 1)
Range(s) == {s[i] : i \in 1 .. Len(s)}
Convexity(e, sorted) ==
    LET ps == FVs(e.ps)
        cl == Classes(ps, e.ring)
    IN IF \E i \in 1 .. Len(cl) : cl[i] = 2 THEN ""
       ELSE LET keep == Pick(e.ring, cl, {1, -1}, 1)
                concave == Pick(e.ring, cl, {-1}, 1)
            IN IF e.vertices # keep THEN "the vertices kept are not those that turn"
               ELSE IF Range(e.concave) # Range(concave) \/ Len(e.concave) # Len(concave)
               THEN "the concave vertices are not those that turn clockwise"
               ELSE IF \E i \in 1 .. Len(e.concave) - 1 : e.concave[i] > e.concave[i + 1] THEN "the concave vertices are not sorted"
               ELSE ""

\* coordinates are small dyadic numbers, so distances compare exactly
RECURSIVE FirstBest(_, _, _, _, _)
FirstBest(ps, q, i, best, d) ==
    IF i > Len(ps) THEN best
    ELSE LET x == VDist2(ps[i], q)
         IN IF RLt(x, d) THEN FirstBest(ps, q, i + 1, i, x) ELSE FirstBest(ps, q, i + 1, best, d)
Nearest(e) ==
    LET ps == FVs(e.ps)
        q == FV(e.q)
        k == FirstBest(ps, q, 2, 1, VDist2(ps[1], q)) - 1
    IN IF e.out = k THEN "" ELSE "the nearest point is not the first with the least distance"

Clamp(e) ==
    LET x == F64(e.x)  a == F64(e.a)  b == F64(e.b)
    IN IF IsNum(e.out) /\ REq(F64(e.out), RMax(RMin(a, b), RMin(RMax(a, b), x))) THEN ""
       ELSE "clamping into a range is wrong"
At(e) ==
    LET a == F64(e.a)  b == F64(e.b)
    IN IF IsNum(e.out) /\ Near(F64(e.out), RAdd(a, RMul(F64(e.x), RSub(b, a))), Slack(RMax(RAbs(a), RAbs(b)))) THEN ""
       ELSE "interpolation in a range is wrong"

\* the least and the greatest key
MinMax(e) ==
    LET xs == FV(e.xs) IN
    IF ~AllNum(e.out) THEN "the least and greatest keys are not finite"
    ELSE IF /\ \A i \in 1 .. Len(xs) : RLe(F64(e.out[1]), xs[i]) /\ RLe(xs[i], F64(e.out[2]))
            /\ \E i \in 1 .. Len(xs) : REq(xs[i], F64(e.out[1]))
            /\ \E i \in 1 .. Len(xs) : REq(xs[i], F64(e.out[2])) THEN ""
    ELSE "the least and greatest keys are wrong"

\* the reciprocal, or zero of zero
Inv(e) ==
    LET x == F64(e.x)
    IN IF ~IsNum(e.out) THEN "a reciprocal is not finite"
       ELSE IF RSign(x) = 0 THEN (IF RSign(F64(e.out)) = 0 THEN "" ELSE "the reciprocal of zero is not zero")
       ELSE IF Near(RMul(F64(e.out), x), RInt(1), RFrac(1, 1000000000)) THEN "" ELSE "a reciprocal is wrong"

\* closeness: within the tolerance, or its square, away from the limit itself
Limit(d, l, out) == (RLt(RMul(d, RFrac(100001, 100000)), l) => out) /\ (RLt(RMul(l, RFrac(100001, 100000)), d) => ~out)
Closeness(e) ==
    LET d == RAbs(RSub(F64(e.a), F64(e.b)))
    IN IF Limit(d, RFrac(1, 10000000), e.n1) /\ Limit(d, RMul(RFrac(1, 10000000), RFrac(1, 10000000)), e.n2) THEN ""
       ELSE "closeness is not within the tolerance"

Fault(e) ==
    CASE e.op = "inside"  -> Inside(e)
      [] e.op = "dist"    -> Dist(e)
      [] e.op = "ccw"     -> Orientation(e)
      [] e.op = "convex"  -> Convexity(e, TRUE)
      [] e.op = "nearest" -> Nearest(e)
      [] e.op = "clamp"   -> Clamp(e)
      [] e.op = "at"      -> At(e)
      [] e.op = "minmax"  -> MinMax(e)
      [] e.op = "inv"     -> Inv(e)
      [] e.op = "near"    -> Closeness(e)
JudgeC13(e, s) == LET w == Fault(e) IN Expect(w = "", s, w)
=============================================================================
