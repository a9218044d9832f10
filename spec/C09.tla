-------------------------------- MODULE C09 --------------------------------
(***************************************************************************)
(* C09  Planes, cylinders, spin, sweep and umbrella surfaces and inverses. *)
(* Model state: the surface.  Events: eval(u, v), project(point),          *)
(* ring(point, d): image in the ring and the point lifted back from it.    *)
(***************************************************************************)
EXTENDS Surfaces, Conform

\* coordinates of q in the frame of the cylinder
Frame(f, q) == LET v == VSub(q, f.o) IN <<VDot(v, f.x), VDot(v, VCross(f.axis, f.x)), VDot(v, f.axis)>>

\* exactly in the reference direction the angle is 0, not a full turn; for frames
\* along the coordinate axes doubles know that
Upright(v) == \A i \in 1 .. 3 : REq(v[i], RInt(0)) \/ REq(RAbs(v[i]), RInt(1))
FullTurn(f, p, u) == Upright(f.axis) /\ Upright(f.x) /\ RSign(p[2]) = 0 /\ RSign(p[1]) > 0 /\ RLe(RInt(6), u)

JudgeC09(e, f) ==
    IF e.op = "surface" THEN Ok(SurfaceOf(e.f))
    ELSE IF e.op = "eval" THEN
        IF ~IsVec(e.out, 3) THEN No("a surface point is not finite")
        ELSE LET u == F64(e.u)
                 v == F64(e.v)
                 want == SurfaceAt(f, u, v)
                 tol == SurfaceTol(f, u, v)
             IN Expect(VNear(FV(e.out), want, tol), f,
                       "a point of the " \o f.kind \o " is wrong: x is " \o RDec(F64(e.out[1])) \o ", should be " \o RDec(want[1]))
    ELSE IF e.op = "project" THEN
        IF ~IsVec(e.out, 2) THEN No("a projection is not finite")
        ELSE LET q == FV(e.q)
                 out == FV(e.out)
                 tol == Relative(RMul(RInt(4), RMax(SurfaceSize(f), VMax(q))))
             IN IF f.kind = "plane"
                THEN LET v == VSub(q, f.o)
                     IN Expect(VNear(out, <<VDot(v, f.x), VDot(v, f.y)>>, tol), f, "projection to plane parameters is wrong")
                ELSE LET p == Frame(f, q)
                         rho == RSqrt(RAdd(Square(p[1]), Square(p[2])), SqrtBits)
                     IN IF ~Near(out[1], p[3], tol) THEN No("projection to a cylinder has a wrong length parameter")
                        ELSE IF RSign(out[2]) < 0 \/ RLt(RAdd(TwoPi, Eps(52)), out[2]) THEN No("a cylinder angle is outside [0, 2 pi)")
                        ELSE IF FullTurn(f, p, out[2]) THEN No("a cylinder angle is a full turn instead of 0")
                        ELSE Expect(/\ Near(RMul(rho, Cos(out[2])), p[1], tol)
                                    /\ Near(RMul(rho, Sin(out[2])), p[2], tol), f,
                                    "projection to a cylinder has a wrong angle")
    ELSE \* ring: central projection from the axis point at height d onto the base plane
        IF ~IsVec(e.img, 2) \/ ~IsVec(e.back, 3) THEN No("a ring projection is not finite")
        ELSE LET q == FV(e.q)
                 d == F64(e.d)
                 p == Frame(f, q)
                 k == RDiv(d, RSub(d, p[3]))
                 img == FV(e.img)
                 tol == RMul(Relative(RMul(RInt(4), RAdd(RMax(SurfaceSize(f), VMax(q)), RAbs(d)))), RAdd(RInt(1), RAbs(k)))
             IN IF ~VNear(img, <<RMul(k, p[1]), RMul(k, p[2])>>, tol) THEN No("the ring image of a cylinder point is wrong")
                ELSE Expect(VNear(FV(e.back), q, RMul(tol, RAdd(RInt(1), RDiv(RInt(1), RAbs(k))))), f,
                            "lifting the ring image does not give the cylinder point back")
=============================================================================
