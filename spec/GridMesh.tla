------------------------------ MODULE GridMesh ------------------------------
(***************************************************************************)
(* The triangulated grid.  Grid vertex (i, j), 0 <= i <= n, 0 <= j <= m, has number         *)
(* i (m + 1) + j.                                                          *)
(***************************************************************************)
EXTENDS MeshOps

Number(m, i, j) == i * (m + 1) + j
\* the boundary of the grid, running once around it so that u turns towards v
GridBoundary(n, m) ==
    {<<Number(m, i, 0), Number(m, i + 1, 0)>> : i \in 0 .. n - 1}
    \cup {<<Number(m, n, j), Number(m, n, j + 1)>> : j \in 0 .. m - 1}
    \cup {<<Number(m, i + 1, m), Number(m, i, m)>> : i \in 0 .. n - 1}
    \cup {<<Number(m, 0, j + 1), Number(m, 0, j)>> : j \in 0 .. m - 1}

Row(m, k) == k \div (m + 1)
Col(m, k) == k % (m + 1)
\* turn of a triangle in the (u, v) plane of the grid
GridTurn(m, t) == (Row(m, t[2]) - Row(m, t[1])) * (Col(m, t[3]) - Col(m, t[1]))
                  - (Col(m, t[2]) - Col(m, t[1])) * (Row(m, t[3]) - Row(m, t[1]))
\* the cells that contain all corners of the triangle
CellsOf(n, m, t) ==
    {c \in (0 .. n - 1) \X (0 .. m - 1) :
        \A x \in 1 .. 3 : Row(m, t[x]) \in {c[1], c[1] + 1} /\ Col(m, t[x]) \in {c[2], c[2] + 1}}

\* "" or what is wrong with triangles ts as a triangulation of the n x m grid
GridMeshFault(n, m, ts) ==
    IF Len(ts) # 2 * n * m THEN "a patch mesh has a wrong number of triangles"
    ELSE IF \E k \in 1 .. Len(ts) : \E x \in 1 .. Len(ts[k]) : ts[k][x] < 0 \/ ts[k][x] >= (n + 1) * (m + 1)
    THEN "a patch mesh has an index out of range"
    ELSE IF \E k \in 1 .. Len(ts) : Len(ts[k]) # 3 THEN "a patch mesh has an incomplete triangle"
    ELSE IF \E k \in 1 .. Len(ts) : GridTurn(m, ts[k]) # 1 THEN "a patch triangle does not turn from u towards v"
    ELSE LET cells == TLCEval([k \in 1 .. Len(ts) |-> CellsOf(n, m, ts[k])])
             es == EdgesOf(ts)
         IN IF \E k \in 1 .. Len(ts) : Cardinality(cells[k]) # 1 THEN "a patch triangle is not in a grid cell"
            ELSE IF \E c \in (0 .. n - 1) \X (0 .. m - 1) : Cardinality({k \in 1 .. Len(ts) : cells[k] = {c}}) # 2
            THEN "a grid cell is not split into two triangles"
            ELSE IF ~NoEdgeTwice(ts) THEN "a patch mesh uses an edge twice in the same direction"
            ELSE IF Unpaired(es) # GridBoundary(n, m) THEN "the boundary of a patch mesh is not the boundary of the grid"
            ELSE ""
=============================================================================
