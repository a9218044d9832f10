-------------------------------- MODULE C05 --------------------------------
(***************************************************************************)
(* C05  Knot vectors keep their algebra.                                   *)
(* Model state: the knots, a sorted sequence.  Events: every operation of  *)
(* the knot vector type; insertion changes the state.                      *)
(***************************************************************************)
EXTENDS Spline, Conform

Exactly(out, want) == /\ AllNum(out)
                      /\ Len(out) = Len(want)
                      /\ \A i \in 1 .. Len(want) : REq(F64(out[i]), want[i])
Closely(out, want, tol) == /\ AllNum(out)
                           /\ Len(out) = Len(want)
                           /\ \A i \in 1 .. Len(want) : Near(F64(out[i]), want[i], tol)

RECURSIVE Repeat(_, _, _)
Repeat(vs, ms, i) == IF i > Len(vs) THEN <<>> ELSE [j \in 1 .. ms[i] |-> vs[i]] \o Repeat(vs, ms, i + 1)

Tiny == RFrac(1, 1000000000)

JudgeC05(e, t) ==
    CASE e.op = "new"       -> LET k == FV(e.in) IN Expect(Exactly(e.t, k), k, "a constructor changed the knots")
      [] e.op = "mults"     -> LET k == Repeat(FV(e.values), e.ms, 1)
                               IN Expect(Exactly(e.t, k), k, "values and multiplicities give other knots")
      [] e.op = "bezier"    -> LET k == BezierKnots(e.p) IN Expect(Exactly(e.t, k), k, "wrong Bezier knots")
      [] e.op = "uniform"   -> LET k == [i \in 1 .. 2 * e.p + 1 + e.n |->
                                            IF i <= e.p + 1 THEN RInt(0)
                                            ELSE IF i > e.p + e.n THEN RInt(1) ELSE RFrac(i - e.p - 1, e.n)]
                               IN Expect(Closely(e.t, k, Tiny), FV(e.t), "wrong uniform knots")
      [] e.op = "add"       -> LET u == F64(e.u)
                                   k == KnotInsert(t, u)
                               IN IF ~Exactly(e.t, k) THEN No("insertion does not give the sorted knots")
                                  ELSE Expect(/\ e.at \in 0 .. Len(k) - 1
                                              /\ REq(k[e.at + 1], u), k, "insertion reports a wrong position")
      [] e.op = "normalize" -> LET len == RSub(Last(t), First(t))
                                   k == [i \in 1 .. Len(t) |-> RDiv(RSub(t[i], First(t)), len)]
                               IN IF ~Closely(e.t, k, Tiny) THEN No("normalisation is not the affine map to [0,1]")
                                  ELSE Expect(REq(F64(e.t[1]), RInt(0)) /\ REq(F64(e.t[Len(t)]), RInt(1)), t,
                                              "normalised knots do not start at 0 and end at 1")
      [] e.op = "shrink"    -> Expect(Exactly(e.t, SubSeq(t, 2, Len(t) - 1)), t, "dropping the end knots went wrong")
      [] e.op = "sub"       -> Expect(Exactly(e.t, SubSeq(t, e.a + 1, e.b)), t, "sub-range is wrong")
      [] e.op = "range"     -> Expect(Exactly(e.out, <<First(t), Last(t)>>), t, "range is wrong")
      [] e.op = "spans"     -> Expect(Closely(e.out, [i \in 1 .. Len(t) - e.k |-> RSub(t[i + e.k], t[i])],
                                              Slack(VMax(t))), t, "span lengths are wrong")
      [] e.op = "mult"      -> Expect(e.out = Mult(t, t[e.i + 1]), t, "multiplicity is wrong")
      [] e.op = "span"      -> Expect(e.out = SpanOf(t, F64(e.u)) - 1, t,
                                      "span index is " \o ToString(e.out) \o ", should be " \o ToString(SpanOf(t, F64(e.u)) - 1))
      [] e.op = "basis"     ->
           LET u == F64(e.u)
               n == Len(t) - e.p - 1
               out == FV(e.out)
               want == Basis(t, e.p, u)
           IN IF ~AllNum(e.out) \/ Len(e.out) # n THEN No("not one basis value per control point")
              ELSE IF \E i \in 1 .. n : RLt(out[i], RNeg(Tiny)) THEN No("a basis function is negative")
              ELSE IF RLe(t[e.p + 1], u) /\ RLe(u, t[n + 1]) /\ ~Near(RSum(out), RInt(1), Tiny) /\ Near(RSum(want), RInt(1), Tiny)
                   THEN No("basis functions do not sum to one")
              ELSE IF \E i \in 1 .. n : (RLt(u, t[i]) \/ RLt(t[i + e.p + 1], u)) /\ RSign(out[i]) # 0
                   THEN No("a basis function does not vanish outside its support")
              ELSE Expect(\A i \in 1 .. n : Near(out[i], want[i], Tiny), t, "basis functions differ from the recursion")
=============================================================================
