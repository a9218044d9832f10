-------------------------------- MODULE C10 --------------------------------
(***************************************************************************)
(* C10  Curve sampling starts and ends at the range, in order and within   *)
(* tolerance.                                                              *)
(*                                                                         *)
(* Adaptive sampling is the state machine of Bisect.tla: a stack of        *)
(* intervals still to do, whose top is either accepted or replaced by its  *)
(* two halves.  A recorded parameter list must be a behaviour of it: the   *)
(* list decides at every step whether the top was accepted.                *)
(* Model state: the curve, its range and tolerance.                        *)
(* Events: divide(a, b, n) -> parameters;  params -> parameters of one     *)
(* adaptive division;  points -> sample points;  refine(a, b, same);       *)
(* jumps, levels: the same for a curve that is constant but for jumps.     *)
(***************************************************************************)
EXTENDS Curves, Conform, Bisect

-----------------------------------------------------------------------------
Divided(a, b, n, out) ==
    LET tol == RMul(RFrac(1, 1000000000), RMax(RAbs(a), RAbs(b)))
    IN IF Len(out) # n + 1 THEN "uniform division has a wrong number of values"
       ELSE IF ~REq(out[1], a) \/ ~REq(out[n + 1], b) THEN "uniform division does not run from end to end"
       ELSE IF \E i \in 1 .. n + 1 : ~Near(out[i], RAdd(a, RDiv(RMul(RInt(i - 1), RSub(b, a)), RInt(n))), tol)
       THEN "uniform division is not equally spaced"
       ELSE ""

-----------------------------------------------------------------------------
(* The bisection machine run along a list: us[i] is the start of the       *)
(* interval on top of the stack `todo' of right ends.                      *)
RECURSIVE Bisection(_, _, _, _)
Bisection(us, i, todo, tol) ==
    IF todo = <<>> THEN i = Len(us)
    ELSE IF i = Len(us) THEN FALSE
    ELSE IF Near(us[i + 1], todo[1], tol) THEN Bisection(us, i + 1, Tail(todo), tol)   \* accepted
    ELSE IF Len(todo) > 60 THEN FALSE
    ELSE Bisection(us, i, <<RDiv(RAdd(us[i], todo[1]), RInt(2))>> \o todo, tol)         \* halved

Monotone(us) == \/ \A i \in 1 .. Len(us) - 1 : RLt(us[i], us[i + 1])
                \/ \A i \in 1 .. Len(us) - 1 : RLt(us[i + 1], us[i])

\* greatest distance of the curve from the chord, at points between
GraphAt(c, u) == IF c.kind = "graph" THEN <<BezierAt(c.xs, u)[1], BezierAt(c.ys, u)[1], u>> ELSE CurveAt(c, u)
Checks == <<RFrac(1, 8), RFrac(3, 8), RFrac(1, 2), RFrac(3, 4)>>
FarFromChord(c, a, b, pa, pb, bound2) ==
    \E k \in 1 .. Len(Checks) :
        RLt(bound2, SegmentDist2(pa, pb, VRound(GraphAt(c, RAdd(a, RMul(Checks[k], RSub(b, a)))), 80)))

\* A chord is accepted where the error measured at one place between 0.4 and 0.6 is below the
\* tolerance.  For a parabola, and for an arc, the error is least at 0.4 and 0.6 and at most
\* 25/24 (1.06) times as large at 0.5.  For a piece whose second derivative keeps its sign in
\* each of the two coordinates it is at most 2.5 times as large anywhere, per coordinate.
Parabola(c) == (c.kind = "graph" /\ Len(c.xs) = 3) \/ (c.kind = "bezier" /\ Len(c.ps) = 3) \/ c.kind = "circle"
Multiple(c) == IF Parabola(c) THEN RFrac(11, 10) ELSE RFrac(18, 5)
Sampled(c, us, a, b, tol, onesided, checks) ==
    LET n == Len(us)
        slack == RMul(RFrac(1, 1000000000), RMax(RAbs(a), RAbs(b)))
    IN IF n < 2 \/ ~REq(us[1], a) \/ ~REq(us[n], b) THEN "adaptive sampling does not run from end to end"
       ELSE IF ~Monotone(us) THEN "adaptive sampling is not monotone"
       ELSE IF ~Bisection(us, 1, <<b>>, slack) THEN "adaptive sampling is not a bisection"
       ELSE IF onesided
               /\ LET bound == RAdd(RMul(Multiple(c), tol), Slack(CurveSize(c)))
                      ps == TLCEval([i \in 1 .. n |-> VRound(GraphAt(c, us[i]), 80)])
                      step == IF n - 1 <= checks THEN 1 ELSE (n - 1) \div checks
                  IN \E i \in 1 .. n - 1 : i % step = 0 /\ FarFromChord(c, us[i], us[i + 1], ps[i], ps[i + 1], Square(bound))
       THEN "the sample polyline is farther from the curve than a small multiple of the tolerance"
       ELSE ""

-----------------------------------------------------------------------------
SameAngle(a, b) == LET d == RDiv(RSub(a, b), TwoPi) IN Near(d, RRound(d, 0), Eps(36))
Refined(a0, a1, same, b0, b1) ==
    LET turn == IF same THEN RSub(b1, b0) ELSE RSub(b0, b1)
        full == REq(a0, a1)
    IN IF ~SameAngle(a0, b0) \/ ~SameAngle(a1, b1) THEN "a refined arc does not start and end at its angles"
       ELSE IF RSign(turn) <= 0 \/ RLt(RAdd(TwoPi, Eps(36)), turn) THEN "a refined arc has the wrong sense or length"
       ELSE IF full /\ ~Near(turn, TwoPi, Eps(36)) THEN "an arc whose ends coincide is not the full circle"
       ELSE ""

Why(w, s) == IF w = "" THEN Ok(s) ELSE No(w)
Curve10(e) == IF e.c.kind = "graph"
              THEN [kind |-> "graph", xs |-> FVs(e.c.xs), ys |-> FVs(e.c.ys), ps |-> FVs(e.c.xs) \o FVs(e.c.ys)]
              ELSE CurveOf(e.c)

JudgeC10(e, s) ==
    CASE e.op = "divide" -> IF ~AllNum(e.out) THEN No("uniform division is not finite")
                            ELSE Why(Divided(F64(e.a), F64(e.b), e.n, FV(e.out)), s)
      [] e.op = "curve"  -> Ok([c |-> Curve10(e), a |-> F64(e.a), b |-> F64(e.b), tol |-> F64(e.tol), onesided |-> e.onesided])
      [] e.op = "params" -> IF ~AllNum(e.out) THEN No("adaptive sampling is not finite")
                            ELSE Why(Sampled(s.c, FV(e.out), s.a, s.b, s.tol, s.onesided, 12), s)
      [] e.op = "kinks" ->
           \* a polygon graph over [0, n] that bends at the recorded points: the whole list is determined
           LET K == {e.bends[i] : i \in 1 .. Len(e.bends)}
               want == <<0>> \o Leaves(K, 0, e.n)
               out == FV(e.out)
               scale == F64(e.scale)
           IN Expect(Len(out) = Len(want) /\ \A i \in 1 .. Len(want) : REq(out[i], RMul(scale, RInt(want[i]))), s,
                     "adaptive sampling is not the bisection that the bends of the curve call for")
      [] e.op = "jumps" ->
           \* constant but for jumps: sampling ends, and closes in on the jumps
           IF ~AllNum(e.out) THEN No("adaptive sampling is not finite")
           ELSE LET us == FV(e.out)  n == Len(us)  at == FV(e.at)
                    in(i, x) == RLe(RMin(us[i], us[i + 1]), x) /\ RLe(x, RMax(us[i], us[i + 1]))
                IN IF n < 2 \/ ~REq(us[1], F64(e.a)) \/ ~REq(us[n], F64(e.b)) THEN No("adaptive sampling does not run from end to end")
                   ELSE IF ~Monotone(us) THEN No("adaptive sampling is not monotone")
                   \* two jumps may make up for one another
                   ELSE Expect(Len(at) > 1 \/ \A j \in 1 .. Len(at) : \E i \in 1 .. n - 1 : in(i, at[j]) /\ RLe(RAbs(RSub(us[i + 1], us[i])), RFrac(1, 1000)),
                               s, "adaptive sampling does not close in on a jump")
      [] e.op = "levels" ->
           Expect((e.n > 1 \/ e.steps = 1) /\ Near(F64(IF e.up THEN e.first ELSE e.last), RInt(0), Eps(30))
                  /\ Near(F64(IF e.up THEN e.last ELSE e.first), RInt(e.n), Eps(30)), s, "sample points do not go over the jumps")
      [] e.op = "points" ->
           \* a sample point of a graph tells its parameter
           IF ~AllVec(e.out, 3) THEN No("sample points are not finite")
           ELSE LET ps == FVs(e.out)
                    us == TLCEval([i \in 1 .. Len(ps) |-> ps[i][3]])
                    w == Sampled(s.c, us, s.a, s.b, s.tol, s.onesided, 8)
                IN IF w # "" THEN No(w)
                   ELSE Expect(\A i \in 1 .. Len(ps) : VNear(ps[i], GraphAt(s.c, us[i]), Slack(CurveSize(s.c))), s,
                               "a sample point is not on the curve")
      [] e.op = "ends"   ->
           \* sample points of any curve
           LET n == Len(e.out)
               tol == Slack(CurveSize(s.c))
           IN IF ~AllVec(e.out, 3) THEN No("sample points are not finite")
              ELSE IF n < 2 THEN No("too few sample points")
              ELSE Expect(VNear(FV(e.out[1]), CurveAt(s.c, s.a), tol) /\ VNear(FV(e.out[n]), CurveAt(s.c, s.b), tol), s,
                          "sample points do not run from the start to the end of the segment")
      [] e.op = "refine" -> Why(Refined(F64(e.a), F64(e.b), e.same, F64(e.out[1]), F64(e.out[2])), s)
=============================================================================
