-------------------------------- MODULE C12 --------------------------------
(***************************************************************************)
(* C12  Patch normals are unit surface normals, one per vertex.            *)
(* Model state: the surface.  Events: patch(ranges, divisions) -> number   *)
(* of vertices and the normals, "normals" -> what the surface itself gives *)
(* for parameter pairs;                                                    *)
(***************************************************************************)
EXTENDS Surfaces, Conform, GridMesh

Param(a, b, n, i) == RAdd(a, RDiv(RMul(RInt(i), RSub(b, a)), RInt(n)))

\* the parameter lies on a knot where the derivative jumps: either side will do
Crease(t, p, u) == LET tol == RMul(RFrac(1, 10000000), RSub(Last(t), First(t)))
                       near == {i \in 1 .. Len(t) : Near(t[i], u, tol)}
                   IN ~Near(u, First(t), tol) /\ ~Near(u, Last(t), tol) /\ Cardinality(near) >= p

Cross(f, u, v) == VCross(NetDu(f, u, v), NetDv(f, u, v))
\* well away from dependent, as the lengths of the derivatives go
Independent(f, u, v) ==
    LET du == NetDu(f, u, v)
        dv == NetDv(f, u, v)
    IN RLt(RMul(RFrac(1, 10000), RMul(VNorm2(du), VNorm2(dv))), VNorm2(VCross(du, dv)))
Dependent(f, u, v) == RSign(VNorm2(Cross(f, u, v))) = 0

NormalIs(got, f, u, v) ==
    LET c == Cross(f, u, v)
        l == RSqrt(VNorm2(c), 120)
    IN IsVec(got, 3) /\ RSign(l) > 0 /\ VNear(FV(got), VScale(RDiv(RInt(1), l), c), RFrac(1, 1000000))
Undefined(got) == \E i \in 1 .. Len(got) : ~IsNum(got[i])

Neighbours(n, m, k) ==
    LET i == Row(m, k)
        j == Col(m, k)
    IN {Number(m, x[1], x[2]) : x \in {y \in {<<i - 1, j>>, <<i + 1, j>>, <<i, j - 1>>, <<i, j + 1>>} :
            y[1] \in 0 .. n /\ y[2] \in 0 .. m}}

JudgeC12(e, f) ==
    IF e.op = "surface" THEN Ok(SurfaceOf(e.f))
    ELSE IF e.op # "vast" /\ ~e.provides THEN Expect(Len(e.ns) = 0, f, "a surface without normals has a mesh with normals")
    ELSE IF e.op = "normals" THEN
        IF Len(e.ns) # Len(e.us) THEN No("not one normal per parameter pair")
        ELSE LET us == FV(e.us)
                 vs == FV(e.vs)
             IN Expect(\A k \in 1 .. Len(us) :
                          (Independent(f, us[k], vs[k]) /\ ~Crease(f.t, f.p, us[k]) /\ ~Crease(f.s, f.q, vs[k]))
                              => NormalIs(e.ns[k], f, us[k], vs[k]), f,
                       "a surface normal is not the normalised cross product of the derivatives")
    ELSE IF e.op = "vast" THEN
        IF e.count # (e.n + 1) * (e.m + 1) \/ e.normals # e.count THEN No("not one normal per vertex of a large patch")
        ELSE LET a == F64(e.a)  b == F64(e.b)  c == F64(e.c)  d == F64(e.d)
                 u(k) == Param(a, b, e.n, Row(e.m, k))
                 v(k) == Param(c, d, e.m, Col(e.m, k))
             IN Expect(\A i \in 1 .. Len(e.ks) :
                          LET k == e.ks[i] IN
                          (~Crease(f.t, f.p, u(k)) /\ ~Crease(f.s, f.q, v(k)) /\ Independent(f, u(k), v(k)))
                              => NormalIs(e.ns[i], f, u(k), v(k)), f,
                       "a normal of a large patch is not the normalised cross product of the derivatives")
    ELSE IF e.count # (e.n + 1) * (e.m + 1) \/ Len(e.ns) # e.count THEN No("not one normal per vertex")
    ELSE LET a == F64(e.a)  b == F64(e.b)  c == F64(e.c)  d == F64(e.d)
             u(k) == Param(a, b, e.n, Row(e.m, k))
             v(k) == Param(c, d, e.m, Col(e.m, k))
             ks == 0 .. e.count - 1
             smooth(k) == ~Crease(f.t, f.p, u(k)) /\ ~Crease(f.s, f.q, v(k))
             dep == TLCEval([k \in ks |-> smooth(k) /\ Dependent(f, u(k), v(k))])
             good == TLCEval([k \in ks |-> smooth(k) /\ Independent(f, u(k), v(k))])
         IN IF \E k \in ks : good[k] /\ ~NormalIs(e.ns[k + 1], f, u(k), v(k))
            THEN No("a patch normal is not the normalised cross product of the derivatives")
            ELSE Expect(\A k \in ks : (e.exact /\ dep[k] /\ \E x \in Neighbours(e.n, e.m, k) : good[x]) =>
                           /\ ~Undefined(e.ns[k + 1])
                           /\ Near(VNorm2(FV(e.ns[k + 1])), RInt(1), RFrac(1, 1000000))
                           /\ \E x \in Neighbours(e.n, e.m, k) : e.ns[x + 1] = e.ns[k + 1], f,
                        "an undefined normal is not replaced by the normal of a neighbour")
=============================================================================
