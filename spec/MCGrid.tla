------------------------------- MODULE MCGrid -------------------------------
(***************************************************************************)
(* Building a grid mesh cell by cell, each cell split along either         *)
(* diagonal: every finished mesh is fault-free, and dropping, flipping or  *)
(* doubling any one triangle of it is a fault - the judgement is complete  *)
(* for single errors.                                                      *)
(***************************************************************************)
EXTENDS GridMesh

CONSTANTS MaxN, MaxM
VARIABLES n, m, cell, ts

Lower(c) == LET a == Number(m, c[1], c[2])
                b == Number(m, c[1] + 1, c[2])
                d == Number(m, c[1], c[2] + 1)
                e == Number(m, c[1] + 1, c[2] + 1)
            IN <<<<a, b, d>>, <<d, b, e>>>>
Upper(c) == LET a == Number(m, c[1], c[2])
                b == Number(m, c[1] + 1, c[2])
                d == Number(m, c[1], c[2] + 1)
                e == Number(m, c[1] + 1, c[2] + 1)
            IN <<<<a, b, e>>, <<a, e, d>>>>

Init == n \in 1 .. MaxN /\ m \in 1 .. MaxM /\ cell = 0 /\ ts = <<>>
Next == /\ cell < n * m
        /\ cell' = cell + 1
        /\ \/ ts' = ts \o Lower(<<cell \div m, cell % m>>)
           \/ ts' = ts \o Upper(<<cell \div m, cell % m>>)
        /\ UNCHANGED <<n, m>>
Spec == Init /\ [][Next]_<<n, m, cell, ts>>

Finished == cell = n * m
Sound == Finished => GridMeshFault(n, m, ts) = ""
Drop(k) == SubSeq(ts, 1, k - 1) \o SubSeq(ts, k + 1, Len(ts))
Flip(k) == [ts EXCEPT ![k] = <<ts[k][3], ts[k][2], ts[k][1]>>]
Double(k) == [ts EXCEPT ![k] = ts[(k % Len(ts)) + 1]]
Complete == Finished =>
    \A k \in 1 .. Len(ts) : /\ GridMeshFault(n, m, Drop(k)) # ""
                            /\ GridMeshFault(n, m, Flip(k)) # ""
                            /\ GridMeshFault(n, m, Double(k)) # ""
Scenario == (Finished /\ \A k \in 1 .. Len(ts) : k % 2 = 0 \/ GridTurn(m, ts[k]) = 1)
            => PrintT("@@SCN " \o ToString(n) \o " " \o ToString(m))
=============================================================================
