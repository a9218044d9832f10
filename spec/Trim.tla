-------------------------------- MODULE Trim --------------------------------
(***************************************************************************)
(* A trimmed plane: what is recorded and what must hold of the mesh.       *)
(***************************************************************************)
EXTENDS Tiling, Conform

Frame(e) == [o |-> FV(e.o), x |-> FV(e.x), y |-> FV(e.y)]
Lift(f, p) == VAdd(f.o, VAdd(VScale(p[1], f.x), VScale(p[2], f.y)))
Drop(f, q) == LET v == VSub(q, f.o) IN <<VDot(v, f.x), VDot(v, f.y)>>
Height(f, q) == VDot(VSub(q, f.o), VCross(f.x, f.y))

RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
\* loops as sequences of vertex numbers, counted through
RECURSIVE Numbered(_, _, _)
Numbered(loops, k, first) ==
    IF k > Len(loops) THEN <<>>
    ELSE <<[i \in 1 .. Len(loops[k]) |-> first + i]>> \o Numbered(loops, k + 1, first + Len(loops[k]))

Plus1(ts) == TLCEval([k \in 1 .. Len(ts) |-> [x \in 1 .. Len(ts[k]) |-> ts[k][x] + 1]])
Convex(ps) == LET n == Len(ps) IN \A i \in 1 .. n : RSign(Turn(ps[Prev(n, i)], ps[i], ps[Next1(n, i)])) >= 0
Reverse(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]

\* mesh vertices e.vs and triangles e.ts of the plane trimmed with the polygons e.loops
TrimFault(f, e) ==
    LET loops == TLCEval([k \in 1 .. Len(e.loops) |-> FVs(e.loops[k])])
        flat == Concat(loops)
        n == Len(flat)
        size == RMax(VMax(f.o), PMax(flat))
        tol == Slack(RMul(RInt(4), size))
    IN IF ~AllVec(e.vs, 3) THEN "a vertex is not finite"
       ELSE IF Len(loops) = 1 /\ RSign(Area2(loops[1])) < 0
       THEN IF ~Convex(Reverse(loops[1])) \/ Len(e.ts) = 0 THEN "" ELSE "a clockwise convex loop gives triangles"
       ELSE IF Len(e.vs) < n THEN "vertices of the polygon are missing"
       ELSE IF \E i \in 1 .. n : ~VNear(FV(e.vs[i]), Lift(f, flat[i]), tol)
       THEN "a vertex of the polygon is not at its place in the vertex list"
       ELSE IF \E i \in 1 .. Len(e.vs) : RLt(tol, RAbs(Height(f, FV(e.vs[i])))) THEN "a vertex is off the plane"
       ELSE LET pts == flat \o [i \in 1 .. Len(e.vs) - n |-> Drop(f, FV(e.vs[n + i]))]
            IN TilingFault(pts, n, Numbered(loops, 1, 0), Plus1(e.ts))

-----------------------------------------------------------------------------
(* Loops of straight edges and arcs: [a] from a corner straight to the     *)
(* next, [a, c, r, turn] along the circle around c with radius r, turning  *)
(* left (1) or right (-1) by less than a full turn, or fully (0).  How     *)
(* many points an arc is divided into is the library's choice, so the      *)
(* polygon is what the mesh starts with.                                   *)

\* where in ps, from i on, the corners are found in order; a corner not found is beyond n
RECURSIVE Corners(_, _, _, _, _)
Corners(ps, n, cs, i, tol) ==
    IF cs = <<>> THEN <<>>
    ELSE LET at == {j \in i .. n : VNear(ps[j], Head(cs), tol)}
             j == IF at = {} THEN n + 1 ELSE CHOOSE x \in at : \A y \in at : x <= y
         IN <<j>> \o Corners(ps, n, Tail(cs), j + 1, tol)

\* points i+1 .. j-1 are on the edge s from its start to b
SideFault(ps, i, j, s, b, tol) ==
    IF ~Has(s, "c") THEN (IF j = i + 1 THEN "" ELSE "a straight edge has inner points")
    ELSE LET a == FV(s.a)  c == FV(s.c)  r == F64(s.r)
             in == i + 1 .. j - 1
         IN IF \E k \in in : ~Near(VLen(VSub(ps[k], c), SqrtBits), r, tol) THEN "a point is not on its arc"
            ELSE IF \E k \in in : s.turn # 0 /\ RSign(Turn(a, b, ps[k])) # -s.turn THEN "a point is on the wrong side of the chord of its arc"
            ELSE IF s.turn = 0 /\ j - i < 3 THEN "a full circle is not gone round"
            ELSE ""

OutlineFault(f, e) ==
    IF ~AllVec(e.vs, 3) THEN "a vertex is not finite"
    ELSE LET sides == Concat(e.loops)
             cs == [i \in 1 .. Len(sides) |-> FV(sides[i].a)]
             size == RMax(VMax(f.o), RMax(PMax(cs), PMax([i \in 1 .. Len(sides) |-> IF Has(sides[i], "c") THEN FV(sides[i].c) ELSE cs[i]])))
             tol == Slack(RMul(RInt(8), size))
             raw == TLCEval([i \in 1 .. Len(e.vs) |-> VRound(Drop(f, FV(e.vs[i])), 60)])
             ts == Plus1(e.ts)
             hub == Len(e.loops) = 1 /\ Len(ts) = Len(raw) - 1 /\ \A k \in 1 .. Len(ts) : Len(raw) \in {ts[k][x] : x \in 1 .. Len(ts[k])}
             n == IF hub THEN Len(raw) - 1 ELSE Len(raw)
             where == TLCEval(Corners(raw, n, cs, 1, tol))
             \* corners exactly, so that straight ones are
             ps == TLCEval([i \in 1 .. Len(raw) |-> IF \E c \in 1 .. Len(cs) : where[c] = i THEN cs[CHOOSE c \in 1 .. Len(cs) : where[c] = i] ELSE raw[i]])
             \* the first side of each loop
             first == [k \in 1 .. Len(e.loops) + 1 |-> 1 + Len(Concat(SubSeq(e.loops, 1, k - 1)))]
             start == TLCEval([k \in 1 .. Len(first) |-> IF first[k] > Len(sides) THEN n + 1 ELSE where[first[k]]])
             loopOf == [i \in 1 .. Len(sides) |-> CHOOSE k \in 1 .. Len(e.loops) : first[k] <= i /\ i < first[k + 1]]
             until(i) == IF i + 1 = first[loopOf[i] + 1] THEN start[loopOf[i] + 1] ELSE where[i + 1]
             next(i) == IF i + 1 = first[loopOf[i] + 1] THEN cs[first[loopOf[i]]] ELSE cs[i + 1]
             bad == {i \in 1 .. Len(sides) : SideFault(ps, where[i], until(i), sides[i], next(i), tol) # ""}
         IN IF \E i \in 1 .. Len(where) : where[i] > n THEN "a corner is missing in the vertices"
            ELSE IF where[1] # 1 THEN "the first vertex is not the first corner"
            ELSE IF \E i \in 1 .. Len(e.vs) : RLt(tol, RAbs(Height(f, FV(e.vs[i])))) THEN "a vertex is off the plane"
            ELSE IF bad # {} THEN LET i == CHOOSE i \in bad : TRUE IN SideFault(ps, where[i], until(i), sides[i], next(i), tol)
            ELSE TilingFault(ps, n, [k \in 1 .. Len(e.loops) |-> [i \in 1 .. start[k + 1] - start[k] |-> start[k] + i - 1]], ts)
=============================================================================
