-------------------------------- MODULE C19 --------------------------------
(***************************************************************************)
(* C19  STL export is a well-formed binary file with every triangle once.  *)
(* Model state: the faces added so far.  Events: face; save, with the      *)
(* length of the file, the count field and the decoded records.            *)
(***************************************************************************)
EXTENDS Vec, Conform

\* s is x rounded to single precision
Single(s, x) == LET d == RAbs(RSub(F64(s), x)) IN RLe(d, RMul(RPow2(-24), RAbs(x))) \/ RLe(d, RPow2(-150))

RECURSIVE Triangles(_)
Triangles(faces) ==
    IF faces = <<>> THEN <<>>
    ELSE LET f == Head(faces)
         IN [t \in 1 .. Len(f.ts) |-> [x \in 1 .. 3 |-> f.vs[f.ts[t][x] + 1]]] \o Triangles(Tail(faces))

SaveFault(faces, e) ==
    LET ts == Triangles(faces)
        n == Len(ts)
    IN IF e.err # "" THEN "saving failed: " \o e.err
       ELSE IF e.len # 84 + 50 * n THEN "the file has " \o ToString(e.len) \o " bytes instead of " \o ToString(84 + 50 * n)
       ELSE IF e.count # n THEN "the triangle count is " \o ToString(e.count) \o " instead of " \o ToString(n)
       ELSE IF e.solid THEN "the header marks a text file"
       ELSE IF \E t \in 1 .. n : e.recs[t].attr # 0 THEN "an attribute count is not zero"
       ELSE IF \E t \in 1 .. n : ~AllVec(e.recs[t].vs, 3) \/ ~IsVec(e.recs[t].n, 3) THEN "a number is not finite"
       ELSE IF \E t \in 1 .. n : \E x \in 1 .. 3 : \E c \in 1 .. 3 : ~Single(e.recs[t].vs[x][c], F64(ts[t][x][c]))
       THEN "a corner is not the one of its triangle"
       ELSE ""

\* many triangles: number t (from 0) has the corners t, t + 1, t + 2 modulo the number of vertices;
\* some records are looked at
HugeFault(e) ==
    IF e.err # "" THEN "saving failed: " \o e.err
    ELSE IF e.len # 84 + 50 * e.n THEN "the file has " \o ToString(e.len) \o " bytes instead of " \o ToString(84 + 50 * e.n)
    ELSE IF e.count # e.n THEN "the triangle count is " \o ToString(e.count) \o " instead of " \o ToString(e.n)
    ELSE IF \E k \in 1 .. Len(e.recs) : e.recs[k].attr # 0 THEN "an attribute count is not zero"
    ELSE IF \E k \in 1 .. Len(e.recs) : ~AllVec(e.recs[k].vs, 3) THEN "a number is not finite"
    ELSE IF \E k \in 1 .. Len(e.recs) : \E x \in 1 .. 3 : \E c \in 1 .. 3 :
                ~Single(e.recs[k].vs[x][c], F64(e.vs[((e.recs[k].t + x - 1) % Len(e.vs)) + 1][c]))
    THEN "a corner is not the one of its triangle"
    ELSE ""

JudgeC19(e, faces) ==
    IF e.op = "model" THEN Ok(<<>>)
    ELSE IF e.op = "face" THEN Ok(Append(faces, [vs |-> e.vs, ts |-> e.ts]))
    ELSE LET w == IF e.op = "huge" THEN HugeFault(e) ELSE SaveFault(faces, e) IN Expect(w = "", faces, w)
=============================================================================
