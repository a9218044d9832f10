-------------------------------- MODULE C04 --------------------------------
(***************************************************************************)
(* C04  Knot insertion, splitting and Bezier conversion preserve the curve.*)
(* Model state: the curve the history started with, which every later      *)
(* representation must still describe, and the knots of the current one.   *)
(* Events: insert, clamp, split (continuing with one part), bezier.        *)
(* Two piecewise polynomials of degree p are compared by p + 1 values      *)
(* inside every piece, which decides their equality; MCEdit.tla checks     *)
(* the edits themselves on the abstract curve.                             *)
(***************************************************************************)
EXTENDS Spline, Conform

At(c, u) == BSplineAt(c.t, c.p, c.ps, u)

\* p + 1 parameters strictly inside (a, b)
Inside(a, b, p) == [j \in 1 .. p + 1 |-> VLerp(<<a>>, <<b>>, RFrac(2 * j - 1, 2 * p + 2))[1]]

\* representation c agrees with the reference on every piece of c
SameCurve(ref, c, tol) ==
    \A i \in 1 .. Len(c.t) - 1 :
        RLt(c.t[i], c.t[i + 1]) =>
            LET us == Inside(c.t[i], c.t[i + 1], c.p)
            IN \A j \in 1 .. c.p + 1 : VNear(At(c, us[j]), At(ref, us[j]), tol)

SameKnots(a, b) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : REq(a[i], b[i])

\* knots within the library's tolerance count as one
Rep(x, p) == [t |-> FV(x.t), p |-> p, ps |-> FVs(x.ps)]
Shape(x, p) == /\ AllNum(x.t)
               /\ AllVec(x.ps, 3)
               /\ x.p = p
               /\ Len(x.t) = Len(x.ps) + p + 1

Rept(x, n) == [i \in 1 .. n |-> x]
\* clamping: end knots with multiplicity p + 1 (kept if higher)
ClampedKnots(t, p) ==
    LET a == First(t)  b == Last(t)
        inner == SelectSeq(t, LAMBDA x : RLt(a, x) /\ RLt(x, b))
    IN Rept(a, MaxOf({p + 1, Mult(t, a)})) \o inner \o Rept(b, MaxOf({p + 1, Mult(t, b)}))

Before(t, u) == SelectSeq(t, LAMBDA x : RLt(x, u))
After(t, u)  == SelectSeq(t, LAMBDA x : RLt(u, x))

JudgeC04(e, s) ==
    CASE e.op = "curve" ->
           LET c == [t |-> FV(e.t), p |-> e.p, ps |-> FVs(e.ps)]
           IN Ok([ref |-> c, t |-> c.t, p |-> e.p, tol |-> RMul(RInt(10), Slack(PMax(c.ps)))])
      [] e.op = "insert" ->
           IF ~Shape(e.c, s.p) THEN No("after an insertion knots and control points do not fit together")
           ELSE LET c == Rep(e.c, s.p)
                IN IF ~SameKnots(c.t, KnotInsert(s.t, F64(e.u))) THEN No("the inserted knot is not in its place")
                   ELSE IF ~SameCurve(s.ref, c, s.tol) THEN No("knot insertion changed the curve")
                   ELSE Ok([s EXCEPT !.t = c.t])
      [] e.op = "clamp" ->
           IF ~Shape(e.c, s.p) THEN No("after clamping knots and control points do not fit together")
           ELSE LET c == Rep(e.c, s.p)
                IN IF ~SameKnots(c.t, ClampedKnots(s.t, s.p)) THEN No("clamping gave wrong knots")
                   ELSE IF ~SameCurve(s.ref, c, s.tol) THEN No("clamping changed the curve")
                   ELSE Ok([s EXCEPT !.t = c.t])
      [] e.op = "split" ->
           IF ~Shape(e.a, s.p) \/ ~Shape(e.b, s.p) THEN No("after a split knots and control points do not fit together")
           ELSE LET a == Rep(e.a, s.p)
                    b == Rep(e.b, s.p)
                    u == F64(e.u)
                    at == Rept(u, s.p + 1)
                IN IF ~SameKnots(a.t, Before(s.t, u) \o at) THEN No("the first part of a split has wrong knots")
                   ELSE IF ~SameKnots(b.t, at \o After(s.t, u)) THEN No("the second part of a split has wrong knots")
                   ELSE IF ~SameCurve(s.ref, a, s.tol) THEN No("the first part of a split is not the curve")
                   ELSE IF ~SameCurve(s.ref, b, s.tol) THEN No("the second part of a split is not the curve")
                   ELSE Ok([s EXCEPT !.t = IF e.keep = "a" THEN a.t ELSE b.t])
      [] e.op = "bezier" ->
           LET d == Distinct(s.t)
           IN IF Len(e.pieces) # Len(d) - 1 THEN No("not one Bezier piece per knot span")
              ELSE IF \E i \in 1 .. Len(e.pieces) : ~(AllVec(e.pieces[i], 3) /\ Len(e.pieces[i]) = s.p + 1)
                   THEN No("a Bezier piece has a wrong degree")
              ELSE IF \A i \in 1 .. Len(d) - 1 :
                        LET ps == FVs(e.pieces[i])
                            us == Inside(d[i], d[i + 1], s.p)
                        IN \A j \in 1 .. s.p + 1 :
                             VNear(BezierAt(ps, RFrac(2 * j - 1, 2 * s.p + 2)), At(s.ref, us[j]), s.tol)
                   THEN Ok(s) ELSE No("the Bezier pieces are not the curve")
=============================================================================
