------------------------------ MODULE Surfaces ------------------------------
(***************************************************************************)
(* Surfaces of every kind as abstract objects: SurfaceOf reads a recorded  *)
(* one, SurfaceAt gives the point at (u, v).                               *)
(***************************************************************************)
EXTENDS Curves

Net(net) == TLCEval([i \in 1 .. Len(net) |-> FVs(net[i])])
RECURSIVE NetMax(_, _)
NetMax(net, i) == IF i > Len(net) THEN RInt(0) ELSE RMax(PMax(net[i]), NetMax(net, i + 1))

SurfaceOf(e) ==
    CASE e.kind = "plane"    -> [kind |-> "plane", o |-> FV(e.o), x |-> FV(e.x), y |-> FV(e.y)]
      [] e.kind = "cylinder" -> [kind |-> "cylinder", o |-> FV(e.o), axis |-> FV(e.axis), x |-> FV(e.x), r |-> F64(e.r)]
      [] e.kind = "spin"     -> [kind |-> "spin", o |-> FV(e.o), axis |-> FV(e.axis), c |-> CurveOf(e.c)]
      [] e.kind = "sweep"    -> [kind |-> "sweep", path |-> CurveOf(e.path), c |-> CurveOf(e.c)]
      [] e.kind = "umbrella" -> [kind |-> "umbrella", r |-> F64(e.r)]
      [] e.kind = "bezier"   -> [kind |-> "net", net |-> Net(e.net), p |-> Len(e.net) - 1, q |-> Len(e.net[1]) - 1,
                                 t |-> BezierKnots(Len(e.net) - 1), s |-> BezierKnots(Len(e.net[1]) - 1)]
      [] e.kind = "bspline"  -> [kind |-> "net", net |-> Net(e.net), p |-> e.p, q |-> e.q, t |-> FV(e.t), s |-> FV(e.s)]

\* the curve (r(t - sin t), r(1 + cos t)) with r = radius / pi, turned by phi
UmbrellaAt(f, t, phi) ==
    LET r == RDiv(f.r, Pi)
        d == RMul(r, RSub(t, Sin(t)))
    IN <<RMul(d, Cos(phi)), RMul(d, Sin(phi)), RMul(r, RAdd(RInt(1), Cos(t)))>>

SurfaceAt(f, u, v) ==
    CASE f.kind = "plane"    -> VAdd(f.o, VAdd(VScale(u, f.x), VScale(v, f.y)))
      [] f.kind = "cylinder" -> VAdd(f.o, VAdd(VScale(u, f.axis), VScale(f.r, Rotate(f.x, f.axis, v))))
      [] f.kind = "spin"     -> VAdd(f.o, Rotate(VSub(CurveAt(f.c, u), f.o), f.axis, v))
      [] f.kind = "sweep"    -> VAdd(CurveAt(f.path, u), CurveAt(f.c, v))
      [] f.kind = "umbrella" -> UmbrellaAt(f, u, v)
      [] f.kind = "net"      -> Affine(NetComb(Basis(f.t, f.p, u), Basis(f.s, f.q, v), f.net))

SurfaceSize(f) ==
    CASE f.kind = "plane"    -> VMax(f.o)
      [] f.kind = "cylinder" -> RMax(VMax(f.o), f.r)
      [] f.kind = "spin"     -> RMax(VMax(f.o), CurveSize(f.c))
      [] f.kind = "sweep"    -> RAdd(CurveSize(f.path), CurveSize(f.c))
      [] f.kind = "umbrella" -> f.r
      [] f.kind = "net"      -> NetMax(f.net, 1)

\* the rounding allowance of a point; lengths and angles may be large, not so the parameters of nets
CurveReach(c, u) ==
    CASE c.kind = "line"   -> RAdd(VMax(c.o), RMul(RAbs(u), VMax(c.d)))
      [] c.kind = "circle" -> RAdd(VMax(c.o), RMul(c.r, RAdd(RInt(1), RAbs(u))))
      [] OTHER             -> RMul(RInt(4), CurveSize(c))
SurfaceReach(f, u, v) ==
    CASE f.kind = "plane"    -> RAdd(VMax(f.o), RAdd(RAbs(u), RAbs(v)))
      [] f.kind = "cylinder" -> RAdd(VMax(f.o), RAdd(RAbs(u), RMul(f.r, RAdd(RInt(1), RAbs(v)))))
      [] f.kind = "spin"     -> RMul(RAdd(VMax(f.o), CurveReach(f.c, u)), RAdd(RInt(1), RAbs(v)))
      [] f.kind = "sweep"    -> RAdd(CurveReach(f.path, u), CurveReach(f.c, v))
      [] f.kind = "umbrella" -> RMul(f.r, RAdd(RInt(1), RAdd(RAbs(u), RAbs(v))))
      [] f.kind = "net"      -> RMul(RInt(4), SurfaceSize(f))
SurfaceTol(f, u, v) == RMul(RInt(4), Relative(SurfaceReach(f, u, v)))

-----------------------------------------------------------------------------
(* Partial derivatives of polynomial control nets.                         *)
NetDu(f, u, v) == NetComb(BasisDer(f.t, f.p, u, 1), Basis(f.s, f.q, v), f.net)
NetDv(f, u, v) == NetComb(Basis(f.t, f.p, u), BasisDer(f.s, f.q, v, 1), f.net)
=============================================================================
