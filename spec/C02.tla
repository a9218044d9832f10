-------------------------------- MODULE C02 --------------------------------
(***************************************************************************)
(* C02  Free-form surface evaluation equals the tensor-product surface.    *)
(* Model state: the surface.  Events: eval(u, v).                          *)
(***************************************************************************)
EXTENDS Spline, Conform

Net(net) == TLCEval([i \in 1 .. Len(net) |-> FVs(net[i])])

\* the uniform clamped knot vector of degree p for n control points
UniformClamped(p, n) ==
    TLCEval([i \in 1 .. n + p + 1 |->
        IF i <= p + 1 THEN RInt(0)
        ELSE IF i > n THEN RInt(1)
        ELSE RFrac(i - p - 1, n - p)])

Surface(e) ==
    [net |-> Net(e.net), rat |-> e.rat] @@
    CASE e.op = "bezier"  -> [t |-> BezierKnots(Len(e.net) - 1), s |-> BezierKnots(Len(e.net[1]) - 1),
                              p |-> Len(e.net) - 1, q |-> Len(e.net[1]) - 1]
      [] e.op = "bspline" -> [t |-> FV(e.t), s |-> FV(e.s), p |-> e.p, q |-> e.q]
      [] e.op = "uniform" -> [t |-> UniformClamped(e.p, Len(e.net)), s |-> UniformClamped(e.q, Len(e.net[1])),
                              p |-> e.p, q |-> e.q]

SurfaceAt(f, u, v) ==
    LET h == NetComb(Basis(f.t, f.p, u), Basis(f.s, f.q, v), f.net)
    IN IF f.rat THEN Project(h) ELSE h

RECURSIVE NetMax(_, _)
NetMax(net, i) == IF i > Len(net) THEN RInt(0) ELSE RMax(PMax(net[i]), NetMax(net, i + 1))

JudgeC02(e, s) ==
    IF e.op \in {"bezier", "bspline", "uniform"} THEN Ok(Surface(e))
    ELSE IF ~IsVec(e.out, 3) THEN No("a surface point is not finite")
    ELSE LET want == SurfaceAt(s, F64(e.u), F64(e.v))
         IN Expect(VNear(FV(e.out), want, Relative(NetMax(s.net, 1))), s,
                   "surface point differs from the tensor product: x is " \o RDec(F64(e.out[1]))
                   \o ", should be " \o RDec(want[1]))
=============================================================================
