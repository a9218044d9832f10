-------------------------------- MODULE C23 --------------------------------
(***************************************************************************)
(* C23  STEP topology is imported completely and with its orientations.    *)
(* Model state: for each face of the file its plane and the walks around   *)
(* its bounds, derived from the flags by StepLoop.tla; for each composite  *)
(* curve its segments.  A piece of a walk is a curve with the parameters   *)
(* where the walk enters and leaves it.                                    *)
(* Events: file, read (counts), bounds (five points of each edge, first to *)
(* last), mesh of a planar face, curve (five points of each segment).      *)
(***************************************************************************)
EXTENDS Step, StepLoop, Planar, Conform

\* STEP counts the vertices of a polyline, a curve here goes by its length
RatioOf(c, a) ==
    LET n == Len(c.ls)
        k == RFloor(a)
        i == IF k >= n THEN n ELSE k + 1
    IN RDiv(RAdd(RSum(SubSeq(c.ls, 1, i - 1)), RMul(c.ls[i], RSub(a, RInt(i - 1)))), RSum(c.ls))
PieceOf(e) ==
    LET c == StepCurveOf(e.c)
        at(a) == IF c.kind = "polyline" THEN RatioOf(c, F64(a)) ELSE F64(a)
    IN TLCEval(<<at(e.a), at(e.b), c>>)
Turned(p) == <<p[2], p[1], p[3]>>
Follow(p, flag) == IF flag THEN p ELSE Turned(p)
PieceWalk(b) ==
    LET es == TLCEval([i \in 1 .. Len(b.edges) |-> Follow(PieceOf(b.edges[i].e), b.edges[i].o)])
    IN IF b.flag THEN es ELSE [i \in 1 .. Len(es) |-> Turned(es[Len(es) + 1 - i])]

On(p, k, m) == CurveAt(p[3], RAdd(p[1], RMul(RSub(p[2], p[1]), RFrac(k, m))))
PointsOf(p, m) == TLCEval([k \in 1 .. m + 1 |-> VRound(On(p, k - 1, m), 60)])
\* parameters of B-spline curves are found by iteration
Fuzz(p) == RMul(IF p[3].kind = "bspline" THEN RFrac(2, 1000) ELSE RFrac(1, 1000000), RAdd(RInt(1), CurveSize(p[3])))

\* twice the area to the left of a piece, seen from n, around o
RECURSIVE Fan(_, _, _, _)
Fan(ps, o, n, i) == IF i = Len(ps) THEN RInt(0)
                    ELSE RAdd(VDot(n, VCross(VSub(ps[i], o), VSub(ps[i + 1], o))), Fan(ps, o, n, i + 1))
Chords(p) == IF p[3].kind = "line" THEN 1 ELSE IF p[3].kind = "circle" \/ VNear(On(p, 0, 1), On(p, 1, 1), Eps(10)) THEN 48 ELSE 20
PolylineSteps(p) ==     \* its vertices between the two parameters, with the ends
    LET c == p[3]
        n == Len(c.vs)
        r == TLCEval([i \in 1 .. n |-> IF i = 1 THEN RInt(0) ELSE RDiv(RSum(SubSeq(c.ls, 1, i - 1)), RSum(c.ls))])
        lo == RMin(p[1], p[2])  hi == RMax(p[1], p[2])
        in == SelectSeq([i \in 1 .. n |-> i], LAMBDA i : RLt(lo, r[i]) /\ RLt(r[i], hi))
        up == <<CurveAt(c, lo)>> \o [i \in 1 .. Len(in) |-> c.vs[in[i]]] \o <<CurveAt(c, hi)>>
    IN IF RLt(p[1], p[2]) THEN up ELSE [i \in 1 .. Len(up) |-> up[Len(up) + 1 - i]]
Corners(p) == IF p[3].kind = "polyline" THEN PolylineSteps(p) ELSE PointsOf(p, Chords(p))
RECURSIVE LengthOf(_, _)
LengthOf(ps, i) == IF i = Len(ps) THEN RInt(0) ELSE RAdd(VLen(VSub(ps[i + 1], ps[i]), 30), LengthOf(ps, i + 1))
Cut(p) == LET ps == TLCEval(Corners(p)) IN [ps |-> ps, curved |-> IF p[3].kind = "line" THEN RInt(0) ELSE LengthOf(ps, 1)]

FaceOf(f) == TLCEval([o |-> FV(f.o), n |-> FV(f.n), walks |-> [k \in 1 .. Len(f.bounds) |-> PieceWalk(f.bounds[k])]])

-----------------------------------------------------------------------------
(* Five points of an edge against those of a piece.                        *)
Agrees(got, p) == /\ Len(got) = 5 /\ AllVec(got, 3)
                  /\ LET want == PointsOf(p, 4) IN \A k \in 1 .. 5 : VNear(FV(got[k]), want[k], Fuzz(p))
\* the same walk, starting anywhere
SameWalk(got, walk) ==
    LET n == Len(walk) IN
    /\ Len(got) = n
    /\ \E s \in 0 .. n - 1 : \A i \in 1 .. n : Agrees(got[i], walk[((i - 1 + s) % n) + 1])
\* bounds are a set
RECURSIVE Paired(_, _)
Paired(gots, walks) ==
    IF gots = <<>> THEN walks = <<>>
    ELSE \E k \in 1 .. Len(walks) : /\ SameWalk(Head(gots), walks[k])
                                    /\ Paired(Tail(gots), SubSeq(walks, 1, k - 1) \o SubSeq(walks, k + 1, Len(walks)))

MeshFault(f, e) ==
    IF ~AllVec(e.vs, 3) THEN "a vertex of the mesh is not finite"
    ELSE IF \E k \in 1 .. Len(e.ts) : Len(e.ts[k]) # 3 \/ \E x \in 1 .. 3 : e.ts[k][x] >= Len(e.vs) THEN "a triangle is incomplete or out of range"
    ELSE LET vs == FVs(e.vs)
             tol == RMul(RFrac(1, 1000000), RAdd(RInt(1), PMax(vs)))
             area(t) == VDot(f.n, VCross(VSub(vs[t[2] + 1], vs[t[1] + 1]), VSub(vs[t[3] + 1], vs[t[1] + 1])))
             areas == TLCEval([k \in 1 .. Len(e.ts) |-> area(e.ts[k])])
             cuts == TLCEval([k \in 1 .. Len(f.walks) |-> TLCEval([i \in 1 .. Len(f.walks[k]) |-> Cut(f.walks[k][i])])])
             want == RSum([k \in 1 .. Len(cuts) |-> RSum([i \in 1 .. Len(cuts[k]) |-> Fan(cuts[k][i].ps, f.o, f.n, 1)])])
             curved == RSum([k \in 1 .. Len(cuts) |-> RSum([i \in 1 .. Len(cuts[k]) |-> cuts[k][i].curved])])
         IN IF \E i \in 1 .. Len(vs) : RLt(tol, RAbs(VDot(f.n, VSub(vs[i], f.o)))) THEN "a vertex of the mesh is off the plane of its face"
            ELSE IF \E k \in 1 .. Len(areas) : RLt(areas[k], RNeg(tol)) THEN "a triangle of a planar face does not face along its normal"
            ELSE IF ~Near(RSum(areas), want, RAdd(RMul(RFrac(1, 10), curved), RMul(tol, RInt(100)))) THEN "the mesh of a planar face does not have the area of its region"
            ELSE ""

JudgeC23(e, s) ==
    CASE e.op = "file" ->
           Ok([faces |-> TLCEval([i \in 1 .. Len(e.faces) |-> FaceOf(e.faces[i])]),
               curves |-> TLCEval([i \in 1 .. Len(e.curves) |->
                   [j \in 1 .. Len(e.curves[i]) |-> Follow(PieceOf(e.curves[i][j].e), e.curves[i][j].o)]])])
      [] e.op = "read" ->
           IF Len(e.faces) # Len(s.faces) THEN No("the model does not have one face per advanced face")
           ELSE IF Len(e.curves) # Len(s.curves) THEN No("the model does not have one curve per composite curve")
           ELSE IF \E i \in 1 .. Len(s.faces) : e.faces[i] # Len(s.faces[i].walks) THEN No("a face does not have all its bounds")
           ELSE Expect(\A i \in 1 .. Len(s.curves) : e.curves[i] = Len(s.curves[i]), s, "a composite curve does not have all its segments")
      [] e.op = "bounds" -> Expect(Paired(e.out, s.faces[e.i].walks), s, "the bounds of a face are not walked as the file says")
      [] e.op = "mesh" -> LET w == MeshFault(s.faces[e.i], e) IN Expect(w = "", s, w)
      [] e.op = "curve" ->
           LET k == s.curves[e.i]
           IN Expect(Len(e.out) = Len(k) /\ \A j \in 1 .. Len(k) : Agrees(e.out[j], k[j]), s, "a segment of a composite curve does not run as the file says")
=============================================================================
