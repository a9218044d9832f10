-------------------------------- MODULE C11 --------------------------------
(***************************************************************************)
(* C11  A surface patch is meshed as a complete, consistently oriented     *)
(* grid.  Model state: the surface.  Events: patch(ranges, divisions) ->   *)
(* vertices and triangles;  grid(ranges, divisions) -> rows of points;     *)
(* big(ranges, divisions) -> the counts of a large mesh and some of its    *)
(* triangles, by number, with their corners; triangles(divisions) -> the   *)
(* triangles of a grid of points alone.                                    *)
(***************************************************************************)
EXTENDS Surfaces, Conform, GridMesh

Param(a, b, n, i) == RAdd(a, RDiv(RMul(RInt(i), RSub(b, a)), RInt(n)))

WrongPoint(f, e, ps) ==
    LET a == F64(e.a)  b == F64(e.b)  c == F64(e.c)  d == F64(e.d)
        tol == RMul(RInt(4), SurfaceTol(f, RMax(RAbs(a), RAbs(b)), RMax(RAbs(c), RAbs(d))))
    IN \E k \in 0 .. Len(ps) - 1 :
          ~VNear(FV(ps[k + 1]), SurfaceAt(f, Param(a, b, e.n, Row(e.m, k)), Param(c, d, e.m, Col(e.m, k))), tol)

\* different triangles of a large mesh: in a cell, rightly turned, not the same, at the right points
BigFault(f, e) ==
    LET a == F64(e.a)  b == F64(e.b)  c == F64(e.c)  d == F64(e.d)
        tol == RMul(RInt(4), SurfaceTol(f, RMax(RAbs(a), RAbs(b)), RMax(RAbs(c), RAbs(d))))
        ts == e.ts
        rows(t) == {Row(e.m, t[x]) : x \in 1 .. 3}
        cols(t) == {Col(e.m, t[x]) : x \in 1 .. 3}
        tight(S) == \A x, y \in S : x - y \in -1 .. 1
    IN IF e.nv # (e.n + 1) * (e.m + 1) THEN "a large patch mesh has a wrong number of vertices"
       ELSE IF e.nt # 6 * e.n * e.m THEN "a large patch mesh has a wrong number of triangles"
       ELSE IF ~AllVec(e.vs, 3) THEN "a corner of a triangle is not a finite vertex"
       ELSE IF \E k \in 1 .. Len(ts) : ~tight(rows(ts[k])) \/ ~tight(cols(ts[k])) THEN "a triangle of a large patch mesh is not in a grid cell"
       ELSE IF \E k \in 1 .. Len(ts) : GridTurn(e.m, ts[k]) # 1 THEN "a triangle of a large patch mesh does not turn from u towards v"
       ELSE IF \E k, l \in 1 .. Len(ts) : e.which[k] # e.which[l] /\ Edges(ts[k]) \cap Edges(ts[l]) # {} THEN "a large patch mesh uses an edge twice in the same direction"
       ELSE IF \E k \in 1 .. Len(ts) : \E x \in 1 .. 3 :
                  ~VNear(FV(e.vs[3 * (k - 1) + x]), SurfaceAt(f, Param(a, b, e.n, Row(e.m, ts[k][x])), Param(c, d, e.m, Col(e.m, ts[k][x]))), tol)
       THEN "a vertex of a large patch mesh is not the surface point at its parameters"
       ELSE ""

JudgeC11(e, f) ==
    IF e.op = "surface" THEN Ok(SurfaceOf(e.f))
    ELSE IF e.op = "big" THEN LET w == BigFault(f, e) IN Expect(w = "", f, w)
    ELSE IF e.op = "triangles" THEN LET w == GridMeshFault(e.n, e.m, e.ts) IN Expect(w = "", f, w)
    ELSE IF e.op = "grid" THEN
        IF e.rows # e.n + 1 \/ e.cols # e.m + 1 THEN No("the point grid has a wrong size")
        ELSE IF ~AllVec(e.vs, 3) THEN No("a grid point is not finite")
        ELSE Expect(Len(e.vs) = (e.n + 1) * (e.m + 1) /\ ~WrongPoint(f, e, e.vs), f,
                    "a point of the grid is not the surface point at its parameters")
    ELSE IF Len(e.vs) # (e.n + 1) * (e.m + 1) THEN No("a patch mesh has a wrong number of vertices")
    ELSE IF ~AllVec(e.vs, 3) THEN No("a mesh vertex is not finite")
    ELSE IF WrongPoint(f, e, e.vs) THEN No("a vertex of a patch mesh is not the surface point at its parameters")
    ELSE LET w == GridMeshFault(e.n, e.m, e.ts) IN Expect(w = "", f, w)
=============================================================================
