-------------------------------- MODULE C17 --------------------------------
(***************************************************************************)
(* C17  Trimmed cylinders and B-spline surfaces are meshed on the surface. *)
(* Model state: the surface.  Events: trim(loops) -> mesh, where a loop is *)
(* a list of edges: straight from a to b ("line"), along a circle around   *)
(* the axis in sense s ("arc"), or along a line of constant first          *)
(* ("u") or second ("v") parameter of the B-spline surface.                *)
(*                                                                         *)
(* The surface is mapped to the plane one-to-one - a cylinder to a ring by *)
(* central projection, a B-spline surface (the ones used here are graphs   *)
(* over their parameter plane) to its parameters - and there the triangles *)
(* must have one orientation and the loops as their boundary chain, so     *)
(* every point of the region is covered once.                              *)
(***************************************************************************)
EXTENDS Surfaces, MeshOps, Conform

Local(f, q) == LET v == VSub(q, f.o) IN <<VDot(v, f.x), VDot(v, f.y), VDot(v, f.z)>>
StateOf(e) ==
    IF e.f.kind = "cylinder"
    THEN LET a == FV(e.f.axis)
             x == FV(e.f.x)
         IN [kind |-> "cylinder", o |-> FV(e.f.o), x |-> x, y |-> VCross(a, x), z |-> a, r |-> F64(e.f.r)]
    ELSE [kind |-> "graph", o |-> FV(e.o), x |-> FV(e.x), y |-> FV(e.y), z |-> VCross(FV(e.x), FV(e.y)), s |-> SurfaceOf(e.f)]
Size(f) == IF f.kind = "cylinder" THEN RAdd(VMax(f.o), f.r) ELSE RMax(VMax(f.o), SurfaceSize(f.s))

\* how far a point with local coordinates p may be from the surface
OnSurface(f, q, p, tol) ==
    IF f.kind = "cylinder"
    THEN Near(RAdd(Square(p[1]), Square(p[2])), Square(f.r), RMul(RMul(RInt(3), f.r), tol))
    ELSE VNear(SurfaceAt(f.s, p[1], p[2]), q, tol)

Lowest(ps) == LET RECURSIVE L(_)
                  L(i) == IF i = 1 THEN ps[1][3] ELSE RMin(ps[i][3], L(i - 1))
              IN L(Len(ps))
Highest(ps) == LET RECURSIVE L(_)
                   L(i) == IF i = 1 THEN ps[1][3] ELSE RMax(ps[i][3], L(i - 1))
               IN L(Len(ps))
\* the plane image
Image(f, ps) ==
    IF f.kind # "cylinder" THEN [i \in 1 .. Len(ps) |-> <<ps[i][1], ps[i][2]>>]
    ELSE LET lo == TLCEval(Lowest(ps))
             d == TLCEval(RMul(RInt(2), RSub(Highest(ps), lo)))
         IN [i \in 1 .. Len(ps) |-> LET k == RDiv(d, RSub(d, RSub(ps[i][3], lo))) IN VRound(<<RMul(k, ps[i][1]), RMul(k, ps[i][2])>>, 60)]

-----------------------------------------------------------------------------
(* The boundary of the mesh walks along the loops.  nx: the next boundary  *)
(* vertex; ps: local coordinates.  Walking gives the vertex reached, or 0. *)
At(ps, i, q, tol) == VNear(ps[i], q, tol)
Allowed(f, e, p, q, tol) ==     \* a step from p to q along the curved edge e
    CASE e.k = "arc" -> /\ Near(q[3], p[3], tol)
                        /\ RSign(RSub(RMul(p[1], q[2]), RMul(p[2], q[1]))) = e.s
      [] e.k = "u"   -> Near(q[1], p[1], tol) /\ RSign(RSub(q[2], p[2])) = e.s
      [] e.k = "v"   -> Near(q[2], p[2], tol) /\ RSign(RSub(q[1], p[1])) = e.s
RECURSIVE AlongCurve(_, _, _, _, _, _, _)
AlongCurve(f, nx, ps, v, e, tol, fuel) ==
    LET w == nx[v] IN
    IF fuel = 0 \/ ~Allowed(f, e, ps[v], ps[w], tol) THEN 0
    ELSE IF At(ps, w, Local(f, FV(e.b)), tol) THEN w
    ELSE AlongCurve(f, nx, ps, w, e, tol, fuel - 1)
Follow(f, nx, ps, v, e, tol) ==
    IF ~At(ps, v, Local(f, FV(e.a)), tol) THEN 0
    ELSE IF e.k = "line" THEN (IF At(ps, nx[v], Local(f, FV(e.b)), tol) THEN nx[v] ELSE 0)
    ELSE AlongCurve(f, nx, ps, v, e, tol, Cardinality(DOMAIN nx))
RECURSIVE FollowAll(_, _, _, _, _, _, _)
FollowAll(f, nx, ps, v, es, i, tol) ==
    IF i > Len(es) THEN v
    ELSE LET w == Follow(f, nx, ps, v, es[i], tol) IN IF w = 0 THEN 0 ELSE FollowAll(f, nx, ps, w, es, i + 1, tol)
RECURSIVE Cycle(_, _, _)
Cycle(nx, v, seen) == IF v \in seen THEN seen ELSE Cycle(nx, nx[v], seen \cup {v})
\* the first vertex of the loop's cycle, or 0
LoopStart(f, nx, ps, es, tol) ==
    LET c == {v \in DOMAIN nx : At(ps, v, Local(f, FV(es[1].a)), tol)}      \* more than one on a seam
        g == {v \in c : FollowAll(f, nx, ps, v, es, 1, tol) = v}
    IN IF g = {} THEN 0 ELSE CHOOSE v \in g : TRUE

TrimFault(f, e) ==
    IF ~AllVec(e.vs, 3) THEN "a vertex is not finite"
    ELSE IF \E k \in 1 .. Len(e.ts) : Len(e.ts[k]) # 3 \/ \E x \in 1 .. 3 : e.ts[k][x] >= Len(e.vs) THEN "a triangle is incomplete or out of range"
    ELSE LET n == Len(e.vs)
             qs == TLCEval(FVs(e.vs))
             ps == TLCEval([i \in 1 .. n |-> VRound(Local(f, qs[i]), 80)])
             tol == Slack(RMul(RInt(16), Size(f)))
             ts == TLCEval([k \in 1 .. Len(e.ts) |-> [x \in 1 .. 3 |-> e.ts[k][x] + 1]])
             es == TLCEval(EdgesOf(ts))
             open == TLCEval(Unpaired(es))
             from == {d[1] : d \in open}
         IN IF Len(ts) = 0 THEN "the mesh is empty"
            ELSE IF \E i \in 1 .. n : ~OnSurface(f, qs[i], ps[i], tol) THEN "a vertex is off the surface"
            ELSE IF Cardinality(es) # 3 * Len(ts) THEN "an edge is used twice in one direction"
            ELSE IF LET used == {d[1] : d \in es} IN   \* one of the two copies of a seam vertex may be idle
                    \E i \in (1 .. n) \ used : ~e.seam \/ ~\E j \in used : VNear(qs[i], qs[j], tol)
                 THEN "a vertex belongs to no triangle"
            ELSE IF Cardinality(from) # Cardinality(open) THEN "the boundary of the mesh touches itself"
            ELSE LET nx == TLCEval([v \in from |-> (CHOOSE d \in open : d[1] = v)[2]])
                     starts == TLCEval([k \in 1 .. Len(e.loops) |-> LoopStart(f, nx, ps, e.loops[k], tol)])
                 IN IF \E k \in 1 .. Len(starts) : starts[k] = 0 THEN "the boundary of the mesh does not follow a loop"
                    ELSE IF UNION {Cycle(nx, starts[k], {}) : k \in 1 .. Len(starts)} # from THEN "the mesh has a boundary that is no loop"
                    ELSE LET im == TLCEval(Image(f, ps))
                             areas == TLCEval([k \in 1 .. Len(ts) |-> Turn(im[ts[k][1]], im[ts[k][2]], im[ts[k][3]])])
                             sum == RSum(areas)
                             slack == RMul(RFrac(e.rough, 1000000), Square(PMax(im)))
                         IN IF RSign(sum) = 0 THEN "the mesh has no area"
                            ELSE IF \E k \in 1 .. Len(ts) : RLt(RMul(RInt(RSign(sum)), areas[k]), RNeg(slack))
                            THEN "a triangle faces the other side"
                            ELSE IF e.files # 0 THEN "a file was written"
                            ELSE ""

JudgeC17(e, f) ==
    IF e.op = "surface" THEN Ok(StateOf(e))
    ELSE LET w == TrimFault(f, e) IN Expect(w = "", f, w)
=============================================================================
