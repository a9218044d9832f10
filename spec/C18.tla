-------------------------------- MODULE C18 --------------------------------
(***************************************************************************)
(* C18  OBJ export contains exactly the model's geometry.                  *)
(* Model state: the faces added so far.  Events: face; save (what a        *)
(* reader of the file finds, line by line); mesh (one mesh saved alone);   *)
(* part (written with given first numbers); bound (a boundary polygon).    *)
(* Doubles are recorded by their bit patterns, so equality is bit-wise.    *)
(*                                                                         *)
(* The reader is a machine: v and vn lines append, an f line refers to     *)
(* what has been read.  Comments, groups and other lines do not matter.    *)
(***************************************************************************)
EXTENDS Conform

\* read the lines; a face line is resolved at once
RECURSIVE Read(_, _, _)
Read(ls, i, s) ==
    IF i > Len(ls) \/ s.bad # "" THEN s
    ELSE LET l == ls[i] IN
         CASE l[1] = "v"  -> Read(ls, i + 1, [s EXCEPT !.vs = Append(@, l[2])])
           [] l[1] = "vn" -> Read(ls, i + 1, [s EXCEPT !.ns = Append(@, l[2])])
           [] l[1] = "f"  -> IF Len(l[2]) # 3 THEN [s EXCEPT !.bad = "a face line does not have three corners"]
                             ELSE IF \E x \in 1 .. 3 : l[2][x] < 1 \/ l[2][x] > Len(s.vs) THEN [s EXCEPT !.bad = "a vertex index is out of range"]
                             ELSE IF Len(l[3]) = 3 /\ \E x \in 1 .. 3 : l[3][x] < 1 \/ l[3][x] > Len(s.ns) THEN [s EXCEPT !.bad = "a normal index is out of range"]
                             ELSE Read(ls, i + 1, [s EXCEPT !.fs = Append(@,
                                    [v |-> [x \in 1 .. 3 |-> s.vs[l[2][x]]],
                                     n |-> IF Len(l[3]) = 3 THEN [x \in 1 .. 3 |-> s.ns[l[3][x]]] ELSE <<>>,
                                     at |-> l[2]])])
           [] OTHER -> Read(ls, i + 1, s)

RECURSIVE Cat(_, _)
Cat(F(_), faces) == IF faces = <<>> THEN <<>> ELSE F(Head(faces)) \o Cat(F, Tail(faces))
Vs(f) == f.vs
Ns(f) == f.ns
Corners(f) == [t \in 1 .. Len(f.ts) |->
    [v |-> [x \in 1 .. 3 |-> f.vs[f.ts[t][x] + 1]],
     n |-> IF Len(f.ns) > 0 THEN [x \in 1 .. 3 |-> f.ns[f.ts[t][x] + 1]] ELSE <<>>]]
RECURSIVE Shifted(_, _)
Shifted(faces, start) ==
    IF faces = <<>> THEN <<>>
    ELSE [t \in 1 .. Len(Head(faces).ts) |-> [x \in 1 .. 3 |-> Head(faces).ts[t][x] + start]]
         \o Shifted(Tail(faces), start + Len(Head(faces).vs))

SaveFault(faces, e) ==
    LET r == Read(e.lines, 1, [vs |-> <<>>, ns |-> <<>>, fs |-> <<>>, bad |-> ""])
        got == TLCEval([i \in 1 .. Len(r.fs) |-> [v |-> r.fs[i].v, n |-> r.fs[i].n]])
    IN IF e.err # "" THEN "saving failed: " \o e.err
       ELSE IF r.bad # "" THEN r.bad
       ELSE IF r.vs # Cat(Vs, faces) THEN "the vertices of the file are not those of the faces, in order"
       ELSE IF r.ns # Cat(Ns, faces) THEN "the normals of the file are not those of the faces, in order"
       ELSE IF Len(got) # Len(Cat(Corners, faces)) THEN "the file has another number of triangles"
       ELSE IF got # Cat(Corners, faces) THEN "a triangle of the file is not the one of its face"
       ELSE IF [i \in 1 .. Len(r.fs) |-> r.fs[i].at] # Shifted(faces, 1) THEN "a triangle refers to vertices of another face"
       ELSE ""

\* a model too large to be written down: vertex i of it, and normal i, is point number i;
\* e.fs: for each face line, which points its corners and normals are
RECURSIVE Refs(_, _, _)
Refs(faces, v, n) ==
    IF faces = <<>> THEN <<>>
    ELSE LET f == Head(faces)
         IN [t \in 1 .. Len(f.ts) |-> [x \in 1 .. 3 |-> <<v + f.ts[t][x] + 1, IF f.normals THEN n + f.ts[t][x] + 1 ELSE 0>>]]
            \o Refs(Tail(faces), v + f.n, IF f.normals THEN n + f.n ELSE n)
RECURSIVE Total(_, _)
Total(faces, all) == IF faces = <<>> THEN 0
                     ELSE (IF all \/ Head(faces).normals THEN Head(faces).n ELSE 0) + Total(Tail(faces), all)
HugeFault(e) ==
    IF e.err # "" THEN "saving failed: " \o e.err
    ELSE IF e.v # Total(e.faces, TRUE) \/ e.vorder # 0 THEN "the vertices of the file are not those of the faces, in order"
    ELSE IF e.vn # Total(e.faces, FALSE) \/ e.vnorder # 0 THEN "the normals of the file are not those of the faces, in order"
    ELSE IF e.fs # Refs(e.faces, 0, 0) THEN "a triangle of the file is not the one of its face"
    ELSE ""

\* a mesh written with its first vertex and normal numbered e.v and e.n
Filter(ls, k) == SelectSeq(ls, LAMBDA l : l[1] = k)
PartFault(e) ==
    LET vs == Filter(e.lines, "v")  ns == Filter(e.lines, "vn")  fs == Filter(e.lines, "f") IN
    IF e.err # "" THEN "saving failed: " \o e.err
    ELSE IF e.count # Len(e.ts) THEN "a mesh does not count its triangles"
    ELSE IF [i \in 1 .. Len(vs) |-> vs[i][2]] # e.vs THEN "the vertices of the file are not those of the faces, in order"
    ELSE IF [i \in 1 .. Len(ns) |-> ns[i][2]] # e.ns THEN "the normals of the file are not those of the faces, in order"
    ELSE IF [i \in 1 .. Len(fs) |-> <<fs[i][2], fs[i][3]>>]
            # [t \in 1 .. Len(e.ts) |-> <<[x \in 1 .. 3 |-> e.ts[t][x] + e.v],
                                       IF e.ns = <<>> THEN <<>> ELSE [x \in 1 .. 3 |-> e.ts[t][x] + e.n]>>]
    THEN "a triangle is not numbered from the given first vertex and normal"
    ELSE ""

\* a boundary: its vertices in order and the closed polyline through them
RECURSIVE Pieces(_)
Pieces(ls) == IF ls = <<>> THEN <<>>
              ELSE [i \in 1 .. Len(Head(ls)[2]) - 1 |-> <<Head(ls)[2][i], Head(ls)[2][i + 1]>>] \o Pieces(Tail(ls))
BoundFault(e) ==
    LET vs == Filter(e.lines, "v")
        n == Len(e.vs)
        ps == TLCEval(Pieces(Filter(e.lines, "l")))
        next(i) == (i % n) + 1
    IN IF e.err # "" THEN "saving failed: " \o e.err
       ELSE IF [i \in 1 .. Len(vs) |-> vs[i][2]] # e.vs THEN "the vertices of the file are not those of the boundary, in order"
       ELSE IF Len(ps) # n \/ \E i \in 1 .. n : ~\E k \in 1 .. n : ps[k] \in {<<i, next(i)>>, <<next(i), i>>}
       THEN "the lines of the file are not the edges of the boundary"
       ELSE ""

JudgeC18(e, faces) ==
    IF e.op = "model" THEN Ok(<<>>)
    ELSE IF e.op = "face" THEN Ok(Append(faces, [vs |-> e.vs, ns |-> e.ns, ts |-> e.ts]))
    ELSE LET w == IF e.op = "save" THEN SaveFault(faces, e) ELSE IF e.op = "huge" THEN HugeFault(e)
                  ELSE IF e.op = "part" THEN PartFault(e) ELSE IF e.op = "bound" THEN BoundFault(e) ELSE SaveFault(<<[vs |-> e.vs, ns |-> e.ns, ts |-> e.ts]>>, e)
         IN Expect(w = "", faces, w)
=============================================================================
