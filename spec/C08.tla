-------------------------------- MODULE C08 --------------------------------
(***************************************************************************)
(* C08  Projection onto free-form curves and surfaces never loses a better *)
(* sample.  Model state: the curve or surface with the points of its       *)
(* uniform sampling.  Events: project(point) -> parameters; `on' tells     *)
(* that the curve is a regular graph and the point lies on it;             *)
(* nearest(point, range, division): the search with its own sampling.      *)
(***************************************************************************)
EXTENDS Curves, Conform

Grid(e) == TLCEval([i \in 1 .. Len(e) |-> FVs(e[i])])
Steps(a, b, n) == TLCEval([i \in 1 .. n + 1 |-> RAdd(a, RDiv(RMul(RInt(i - 1), RSub(b, a)), RInt(n)))])
SampleBits == 90

\* curves: degree * 4 samples for Bezier, 4 per control point for B-splines
CurveState(e) ==
    LET c == CurveOf(e.c)
        lo == IF c.kind = "bezier" THEN RInt(0) ELSE First(c.t)
        hi == IF c.kind = "bezier" THEN RInt(1) ELSE Last(c.t)
        n  == IF c.kind = "bezier" THEN 4 * (Len(c.ps) - 1) ELSE 4 * Len(c.ps)
        us == Steps(lo, hi, n)
    IN [kind |-> "curve", c |-> c, lo |-> <<lo>>, hi |-> <<hi>>, size |-> CurveSize(c),
        samples |-> TLCEval([i \in 1 .. n + 1 |-> VRound(CurveAt(c, us[i]), SampleBits)])]

SurfaceState(e) ==
    LET net == Grid(e.net)
        t == FV(e.t)
        s == FV(e.s)
        nu == 4 * Len(net)
        nv == 4 * Len(net[1])
        us == Steps(First(t), Last(t), nu)
        vs == Steps(First(s), Last(s), nv)
        bu == TLCEval([i \in 1 .. nu + 1 |-> Basis(t, e.p, us[i])])
        bv == TLCEval([j \in 1 .. nv + 1 |-> Basis(s, e.q, vs[j])])
        \* combine the rows of the net along v once per column of samples
        cols == TLCEval([j \in 1 .. nv + 1 |-> [i \in 1 .. Len(net) |-> VRound(Comb(bv[j], net[i]), SampleBits)]])
    IN [kind |-> "surface", net |-> net, t |-> t, s |-> s, p |-> e.p, q |-> e.q,
        lo |-> <<First(t), First(s)>>, hi |-> <<Last(t), Last(s)>>,
        size |-> PMax([i \in 1 .. Len(net) |-> <<PMax(net[i])>>]),
        samples |-> TLCEval([k \in 1 .. (nu + 1) * (nv + 1) |->
            VRound(Comb(bu[((k - 1) \div (nv + 1)) + 1], cols[((k - 1) % (nv + 1)) + 1]), SampleBits)])]

At(f, w) == IF f.kind = "curve" THEN CurveAt(f.c, w[1])
            ELSE NetComb(Basis(f.t, f.p, w[1]), Basis(f.s, f.q, w[2]), f.net)

RECURSIVE BestFrom(_, _, _)
BestFrom(ps, q, i) == LET d == VDist2(ps[i], q) IN IF i = Len(ps) THEN d ELSE RMin(d, BestFrom(ps, q, i + 1))

\* a squared distance below 1e-7 counts as arrived
Arrived == RFrac(1, 2500)

NearestFault(f, e) ==
    IF ~IsVec(e.out, 1) THEN "a projection is not finite"
    ELSE LET lo == F64(e.lo)  hi == F64(e.hi)
             us == Steps(lo, hi, e.division)
             q == FV(e.q)
             u == F64(e.out[1])
             best == RSqrt(BestFrom([i \in 1 .. Len(us) |-> CurveAt(f.c, us[i])], q, 1), SqrtBits)
             got == VLen(VSub(CurveAt(f.c, u), q), SqrtBits)
         IN IF RLt(u, RMin(lo, hi)) \/ RLt(RMax(lo, hi), u) THEN "the search for the nearest parameter leaves its range"
            ELSE IF ~RLe(got, RAdd(best, RAdd(Arrived, Slack(RMax(f.size, VMax(q))))))
            THEN "the search for the nearest parameter ends farther away than a sample: distance " \o RDec(got) \o ", sample " \o RDec(best)
            ELSE ""

JudgeC08(e, f) ==
    IF e.op = "nearest" THEN LET w == NearestFault(f, e) IN Expect(w = "", f, w) ELSE
    IF e.op = "curve" THEN Ok(CurveState(e))
    ELSE IF e.op = "surface" THEN Ok(SurfaceState(e))
    ELSE IF ~IsVec(e.out, Len(f.lo)) THEN No("a projection is not finite")
    ELSE LET w == FV(e.out)
             q == FV(e.q)
             slack == Slack(RMax(f.size, VMax(q)))
             got == VLen(VSub(At(f, w), q), SqrtBits)
             best == RSqrt(BestFrom(f.samples, q, 1), SqrtBits)
         IN IF \E i \in 1 .. Len(w) : RLt(w[i], f.lo[i]) \/ RLt(f.hi[i], w[i])
            THEN No("projection onto a " \o f.kind \o " leaves the parameter range")
            ELSE IF ~RLe(got, RAdd(best, RAdd(Arrived, slack)))
            THEN No("projection onto a " \o f.kind \o " ends farther away than a sample: distance " \o RDec(got)
                    \o ", sample " \o RDec(best))
            ELSE Expect(e.on => RLe(got, RAdd(Arrived, slack)), f,
                        "a point of a regular " \o f.kind \o " does not come back: distance " \o RDec(got))
=============================================================================
