-------------------------------- MODULE C14 --------------------------------
(***************************************************************************)
(* C14  A planar face bounded by one loop is triangulated exactly.         *)
(* Model state: the frame of the plane.  Events: trim(loops) -> mesh;      *)
(* disk: a loop of arcs of one circle -> mesh.                             *)
(***************************************************************************)
EXTENDS Trim

\* the loop is a circle around c (in plane coordinates) with radius r; the number
\* of samples is the library's choice, so the polygon is what the mesh starts with
DiskFault(f, e) ==
    IF ~AllVec(e.vs, 3) THEN "a vertex is not finite"
    ELSE LET ps == TLCEval([i \in 1 .. Len(e.vs) |-> VRound(Drop(f, FV(e.vs[i])), 60)])
             c == FV(e.c)
             r == F64(e.r)
             tol == Slack(RMul(RInt(4), RAdd(r, RMax(VMax(c), VMax(f.o)))))
             n == Cardinality({i \in 1 .. Len(ps) : Near(VLen(VSub(ps[i], c), SqrtBits), r, tol)})
         IN IF n < 3 \/ \E i \in 1 .. n : ~Near(VLen(VSub(ps[i], c), SqrtBits), r, tol) THEN "a vertex is not on the circle"
            ELSE IF RLt(RMul(RFrac(1, 2), RMul(r, r)), RAbs(RSub(RMul(RMul(RInt(2), Pi), RMul(r, r)), Area2(SubSeq(ps, 1, n)))))
            THEN "the polygon does not go round the circle once"
            ELSE TilingFault(ps, n, <<[i \in 1 .. n |-> i]>>, Plus1(e.ts))

JudgeC14(e, f) ==
    IF e.op = "plane" THEN Ok(Frame(e))
    ELSE LET w == IF e.op = "disk" THEN DiskFault(f, e) ELSE IF e.op = "outline" THEN OutlineFault(f, e) ELSE TrimFault(f, e) IN Expect(w = "", f, w)
=============================================================================
