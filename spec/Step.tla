-------------------------------- MODULE Step --------------------------------
(***************************************************************************)
(* STEP geometry (ISO 10303-42) as the abstract curves and surfaces of     *)
(* Curves.tla and Surfaces.tla.  A placement is a location and optional    *)
(* directions of any length; <<>> stands for an absent one.                *)
(***************************************************************************)
EXTENDS Surfaces

UnitBits == 130
Unit(v) == LET l == RSqrt(VNorm2(v), UnitBits) IN VRound(VScale(RDiv(RInt(1), l), v), 110)
XAxis == <<RInt(1), RInt(0), RInt(0)>>
YAxis == <<RInt(0), RInt(1), RInt(0)>>
ZAxis == <<RInt(0), RInt(0), RInt(1)>>

\* build_axes: z is the axis or Z; x the projection of the reference
\* direction, by default that of X, or of Y if the axis is along X
AxisOf(d) == IF d = <<>> THEN ZAxis ELSE Unit(FV(d))
AlongX(z) == RSign(z[2]) = 0 /\ RSign(z[3]) = 0
FrameOf(pl) ==
    LET z == AxisOf(pl.axis)
        d == IF pl.x # <<>> THEN Unit(FV(pl.x)) ELSE IF AlongX(z) THEN YAxis ELSE XAxis
        x == Unit(VSub(d, VScale(VDot(d, z), z)))
    IN TLCEval([o |-> FV(pl.o), x |-> x, z |-> z])

RECURSIVE Repeat(_, _)
Repeat(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Repeat(x, n - 1)
RECURSIVE KnotsOf(_, _)
KnotsOf(ms, ks) == IF ms = <<>> THEN <<>> ELSE Repeat(F64(Head(ks)), Head(ms)) \o KnotsOf(Tail(ms), Tail(ks))
\* without knots: clamped, and uniform on 0 .. 1
UniformKnots(p, n) == [i \in 1 .. n + p + 1 |-> IF i <= p + 1 THEN RInt(0) ELSE IF i > n THEN RInt(1) ELSE RFrac(i - p - 1, n - p)]

StepCurveOf(e) ==
    CASE e.kind = "line" -> [kind |-> "line", o |-> FV(e.o), d |-> VScale(F64(e.mag), Unit(FV(e.dir)))]
      [] e.kind = "circle" -> LET f == FrameOf(e.pl) IN [kind |-> "circle", o |-> f.o, r |-> F64(e.r), axis |-> f.z, x |-> f.x]
      [] e.kind = "polyline" -> CurveOf(e)
      [] e.kind = "bspline" -> [kind |-> "bspline", p |-> e.p, t |-> KnotsOf(e.ms, e.ks), ps |-> FVs(e.ps)]

Weighted(net, ws) ==
    TLCEval([i \in 1 .. Len(net) |-> [j \in 1 .. Len(net[i]) |->
        LET p == FV(net[i][j])  w == F64(ws[i][j]) IN VScale(w, p) \o <<w>>]])

\* the surface of a face: a plane turns over with the face
StepSurfaceOf(e, sense) ==
    CASE e.kind = "plane" -> LET f == FrameOf(e.pl)  y == VCross(f.z, f.x)
                             IN [kind |-> "plane", o |-> f.o, x |-> f.x, y |-> IF sense THEN y ELSE VNeg(y)]
      [] e.kind = "cylinder" -> LET f == FrameOf(e.pl) IN [kind |-> "cylinder", o |-> f.o, axis |-> f.z, x |-> f.x, r |-> F64(e.r)]
      [] e.kind = "revolution" -> [kind |-> "spin", o |-> FV(e.o), axis |-> AxisOf(e.axis), c |-> StepCurveOf(e.c)]
      [] e.kind = "bezier" -> SurfaceOf(e)
      [] e.kind = "uniform" -> [kind |-> "net", net |-> Net(e.net), p |-> e.p, q |-> e.q,
                                t |-> UniformKnots(e.p, Len(e.net)), s |-> UniformKnots(e.q, Len(e.net[1]))]
      [] e.kind = "knots" -> [kind |-> "net", net |-> Net(e.net), p |-> e.p, q |-> e.q,
                              t |-> KnotsOf(e.tm, e.tk), s |-> KnotsOf(e.sm, e.sk)]
      [] e.kind = "rational" -> [kind |-> "net", net |-> Weighted(e.net, e.ws), p |-> e.p, q |-> e.q,
                                 t |-> KnotsOf(e.tm, e.tk), s |-> KnotsOf(e.sm, e.sk)]

Supported(e) == e.kind # "unsupported"
=============================================================================
