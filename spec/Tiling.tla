------------------------------- MODULE Tiling -------------------------------
(***************************************************************************)
(* When do triangles tile the region bounded by loops?  If all of them are *)
(* counter-clockwise and the boundary of their sum, as a chain of directed *)
(* edges, is the chain of the loops: then at every point the number of     *)
(* triangles that cover it is the winding number of the loops around it,   *)
(* that is 1 in the region and 0 outside.  Areas adding up follows.        *)
(* An edge of a triangle may run straight through vertices of the loops;   *)
(* it is cut there before edges cancel.                                    *)
(***************************************************************************)
EXTENDS Planar, MeshOps

\* is x strictly between a and b, on the segment?
OnSegment(a, b, x) ==
    /\ RSign(Turn(a, b, x)) = 0
    /\ LET k == VDot(VSub(x, a), VSub(b, a)) IN RSign(k) > 0 /\ RLt(k, VNorm2(VSub(b, a)))

\* the vertices among 1..n on the open edge from i to j, in order of distance from i
RECURSIVE Ordered(_, _, _)
Ordered(pts, i, S) ==
    IF S = {} THEN <<>>
    ELSE LET k == CHOOSE x \in S : \A y \in S : RLe(VDist2(pts[i], pts[x]), VDist2(pts[i], pts[y]))
         IN <<k>> \o Ordered(pts, i, S \ {k})
Cut(pts, n, e) ==
    LET on == {x \in 1 .. n : x # e[1] /\ x # e[2] /\ OnSegment(pts[e[1]], pts[e[2]], pts[x])}
        way == <<e[1]>> \o Ordered(pts, e[1], on) \o <<e[2]>>
    IN {<<way[i], way[i + 1]>> : i \in 1 .. Len(way) - 1}

LoopEdges(loops) == UNION {{<<loops[k][i], loops[k][(i % Len(loops[k])) + 1]>> : i \in 1 .. Len(loops[k])} : k \in 1 .. Len(loops)}

\* triangles ts over points pts, of which the first n are the vertices of the loops
TilingFault(pts, n, loops, ts) ==
    IF \E k \in 1 .. Len(ts) : Len(ts[k]) # 3 THEN "a triangle is incomplete"
    ELSE IF \E k \in 1 .. Len(ts) : \E x \in 1 .. 3 : ts[k][x] < 1 \/ ts[k][x] > Len(pts) THEN "an index is out of range"
    ELSE IF \E k \in 1 .. Len(ts) : RSign(Turn(pts[ts[k][1]], pts[ts[k][2]], pts[ts[k][3]])) <= 0
    THEN "a triangle does not face along the normal"
    ELSE LET parts == TLCEval([k \in 1 .. Len(ts) |-> UNION {Cut(pts, n, e) : e \in Edges(ts[k])}])
             sizes == TLCEval([k \in 1 .. Len(ts) |-> Cardinality(parts[k])])
             es == UNION {parts[k] : k \in 1 .. Len(ts)}
             RECURSIVE Sum(_)
             Sum(k) == IF k = 0 THEN 0 ELSE sizes[k] + Sum(k - 1)
             open == Unpaired(es)
             want == LoopEdges(loops)
         IN IF Cardinality(es) # Sum(Len(ts)) THEN "triangles overlap"
            ELSE IF want \ open # {} THEN "the triangles do not reach all of the boundary"
            ELSE IF open \ want # {} THEN "the triangles do not end at the boundary"
            ELSE ""
=============================================================================
