------------------------------ MODULE MCExport ------------------------------
(***************************************************************************)
(* Export of a model as OBJ and STL.  Faces of a few sizes are added; then *)
(* the writer goes through them with its running offsets, and a reader     *)
(* resolves what was written.  Invariants: every triangle the reader has   *)
(* seen so far is the one of the face it came from, indices never point    *)
(* past what has been written, the STL length is 84 + 50 n at the end.     *)
(* Sequences of face sizes are scenarios.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxFaces, Sizes
SomeSizes == {<<0, 0, 0>>, <<3, 0, 1>>, <<3, 1, 1>>, <<4, 0, 2>>, <<4, 1, 0>>, <<5, 1, 3>>, <<5, 0, 0>>}
VARIABLES faces, phase, k, vs, ns, fs, vstart, nstart, stl, count
vars == <<faces, phase, k, vs, ns, fs, vstart, nstart, stl, count>>

\* <<vertices, has normals, triangles>>; triangle j of a face uses vertices j, j+1, j+2 (mod)
Tri(f, j) == <<j % f[1], (j + 1) % f[1], (j + 2) % f[1]>>
Init == faces = <<>> /\ phase = "build" /\ k = 0 /\ vs = <<>> /\ ns = <<>> /\ fs = <<>>
        /\ vstart = 1 /\ nstart = 1 /\ stl = 84 /\ count = 0
Add == /\ phase = "build" /\ Len(faces) < MaxFaces
       /\ \E f \in Sizes : faces' = Append(faces, f)
       /\ UNCHANGED <<phase, k, vs, ns, fs, vstart, nstart, stl, count>>
Save == /\ phase = "build" /\ phase' = "write" /\ k' = 1
        /\ UNCHANGED <<faces, vs, ns, fs, vstart, nstart, stl, count>>
\* items are tagged with the face and number they came from
WriteFace ==
    /\ phase = "write" /\ k <= Len(faces)
    /\ LET f == faces[k] IN
       /\ vs' = vs \o [i \in 1 .. f[1] |-> <<k, i - 1>>]
       /\ ns' = IF f[2] = 1 THEN ns \o [i \in 1 .. f[1] |-> <<k, i - 1>>] ELSE ns
       /\ fs' = fs \o [j \in 1 .. f[3] |-> [src |-> <<k, j - 1>>, v |-> [x \in 1 .. 3 |-> Tri(f, j - 1)[x] + vstart],
                                            n |-> IF f[2] = 1 THEN [x \in 1 .. 3 |-> Tri(f, j - 1)[x] + nstart] ELSE <<>>]]
       /\ vstart' = vstart + f[1]
       /\ nstart' = nstart + (IF f[2] = 1 THEN f[1] ELSE 0)
       /\ stl' = stl + 50 * f[3]
       /\ count' = count + f[3]
       /\ k' = k + 1
    /\ UNCHANGED <<faces, phase>>
Next == Add \/ Save \/ WriteFace
Spec == Init /\ [][Next]_vars

Resolved == \A i \in 1 .. Len(fs) :
    LET g == fs[i]  f == faces[g.src[1]] IN
    /\ \A x \in 1 .. 3 : g.v[x] \in 1 .. Len(vs) /\ vs[g.v[x]] = <<g.src[1], Tri(f, g.src[2])[x]>>
    /\ g.n # <<>> => \A x \in 1 .. 3 : g.n[x] \in 1 .. Len(ns) /\ ns[g.n[x]] = <<g.src[1], Tri(f, g.src[2])[x]>>
Length == stl = 84 + 50 * count /\ count = Len(fs)
RECURSIVE Flat(_)
Flat(i) == IF i > Len(faces) THEN "" ELSE " " \o ToString(faces[i][1]) \o " " \o ToString(faces[i][2]) \o " " \o ToString(faces[i][3]) \o Flat(i + 1)
Emit == (phase = "write" /\ k = 1) => PrintT("@@SCN " \o ToString(Len(faces)) \o Flat(1))
=============================================================================
