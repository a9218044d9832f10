------------------------------ MODULE MeshOps ------------------------------
(* Triangle meshes as combinatorial objects.  A triangle is a sequence of  *)
(* three vertex numbers, a directed edge a pair of them.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Edges(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
\* every directed edge of the mesh; 3 per triangle iff none is used twice
EdgesOf(ts) == UNION {Edges(ts[k]) : k \in 1 .. Len(ts)}
NoEdgeTwice(ts) == Cardinality(EdgesOf(ts)) = 3 * Len(ts)
Unpaired(es) == {e \in es : <<e[2], e[1]>> \notin es}
=============================================================================
