-------------------------------- MODULE C16 --------------------------------
(***************************************************************************)
(* C16  Advancing-front meshing fills the region and keeps its boundary.   *)
(* Events: mesh(points, loops) -> (vertices, triangles).                   *)
(* All triangles counter-clockwise and their boundary, as a chain, equal   *)
(* to the loops: so every point of the region is covered exactly once.     *)
(***************************************************************************)
EXTENDS Conform, Planar, MeshOps

RECURSIVE Numbered(_, _, _)
Numbered(sizes, k, first) ==
    IF k > Len(sizes) THEN <<>>
    ELSE <<[i \in 1 .. sizes[k] |-> first + i]>> \o Numbered(sizes, k + 1, first + sizes[k])
LoopEdges(loops) == UNION {{<<loops[k][i], loops[k][(i % Len(loops[k])) + 1]>> : i \in 1 .. Len(loops[k])} : k \in 1 .. Len(loops)}

MeshFault(e) ==
    LET n == Len(e.ps)
        ts == TLCEval([k \in 1 .. Len(e.ts) |-> [x \in 1 .. Len(e.ts[k]) |-> e.ts[k][x] + 1]])
    IN IF ~AllVec(e.vs, 2) THEN "a vertex is not finite"
       ELSE IF Len(e.vs) < n \/ SubSeq(e.vs, 1, n) # e.ps THEN "the given vertices do not come first and unchanged"
       ELSE IF \E k \in 1 .. Len(ts) : Len(ts[k]) # 3 THEN "a triangle is incomplete"
       ELSE IF \E k \in 1 .. Len(ts) : \E x \in 1 .. 3 : ts[k][x] > Len(e.vs) THEN "an index is out of range"
       ELSE LET pts == TLCEval(FVs(e.vs))
                size == PMax(pts)
                es == TLCEval(EdgesOf(ts))
                want == LoopEdges(Numbered(e.sizes, 1, 0))
                open == Unpaired(es)
            IN IF \E k \in 1 .. Len(ts) : RSign(Turn(pts[ts[k][1]], pts[ts[k][2]], pts[ts[k][3]])) <= 0
               THEN "a triangle is not counter-clockwise"
               ELSE IF Cardinality(es) # 3 * Len(ts) THEN "an edge is used twice in one direction"
               ELSE IF want \ open # {} THEN "a boundary edge is not used once in its direction"
               ELSE IF open \ want # {} THEN "an inner edge is used only once"
               ELSE IF \E i \in 1 .. Len(pts) : i \notin {d[1] : d \in es} THEN "a vertex belongs to no triangle"
               ELSE ""

JudgeC16(e, s) == LET w == MeshFault(e) IN Expect(w = "", s, w)
=============================================================================
