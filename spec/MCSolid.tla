------------------------------ MODULE MCSolid -------------------------------
(***************************************************************************)
(* A solid as a STEP file holds it, read back: every edge is stored in one *)
(* direction, every bound lists its loop forwards or backwards, and the    *)
(* flags say which.  Read and meshed face by face, a solid closes up       *)
(* whatever the flags; with a face left out, repeated or turned over it    *)
(* does not.  So closing up is the right thing to ask of what is exported. *)
(* The combinations of flags are scenarios.                                *)
(***************************************************************************)
EXTENDS Solid

CONSTANT Kinds
Loops(kind) == IF kind = 0 THEN <<<<1, 3, 2>>, <<1, 2, 4>>, <<2, 3, 4>>, <<3, 1, 4>>>>
               ELSE <<<<1, 3, 2>>, <<4, 5, 6>>, <<1, 2, 5, 4>>, <<2, 3, 6, 5>>, <<3, 1, 4, 6>>>>

VARIABLES kind, stored, flags, got, fault, phase
vars == <<kind, stored, flags, got, fault, phase>>

Around(l) == [i \in 1 .. Len(l) |-> <<l[i], l[(i % Len(l)) + 1]>>]
\* the edges in the order they are met
RECURSIVE Met(_, _, _)
Met(ls, i, seen) == IF i > Len(ls) THEN seen
                    ELSE Met(ls, i + 1, seen \o SelectSeq(Around(ls[i]), LAMBDA d : \A j \in 1 .. Len(seen) : seen[j] # Swap(d)))
Edges == Met(Loops(kind), 1, <<>>)

Init == kind \in Kinds /\ stored = <<>> /\ flags = <<>> /\ got = <<>> /\ fault = <<"none">> /\ phase = "write"
Store == /\ phase = "write" /\ Len(stored) < Len(Edges)
         /\ \E rev \in BOOLEAN : stored' = Append(stored, rev)
         /\ UNCHANGED <<kind, flags, got, fault, phase>>
List == /\ phase = "write" /\ Len(stored) = Len(Edges) /\ Len(flags) < Len(Loops(kind))
        /\ \E f \in BOOLEAN : flags' = Append(flags, f)
        /\ UNCHANGED <<kind, stored, got, fault, phase>>
Damage == /\ phase = "write" /\ Len(flags) = Len(Loops(kind))
          /\ \E w \in {"none", "drop", "repeat", "turn"} : \E f \in 1 .. Len(flags) :
               fault' = IF w = "none" THEN <<"none">> ELSE <<w, f>>
          /\ phase' = "read" /\ UNCHANGED <<kind, stored, flags, got>>

\* the file: edges as stored, and the list of each bound
Stored(k) == IF stored[k] THEN Swap(Edges[k]) ELSE Edges[k]
Number(d) == CHOOSE k \in 1 .. Len(Edges) : Edges[k] \in {d, Swap(d)}
Listed(f) == LET a == Around(Loops(kind)[f]) IN Bound(a, flags[f])
ReadLoop(f) ==
    LET l == Listed(f)
        flag == IF fault = <<"turn", f>> THEN ~flags[f] ELSE flags[f]
    IN WalkOf([i \in 1 .. Len(l) |-> Stored(Number(l[i]))], [i \in 1 .. Len(l) |-> Stored(Number(l[i])) = l[i]], flag)
Read == /\ phase = "read" /\ Len(got) < Len(flags)
        /\ LET f == Len(got) + 1
               mesh == FanOf(ReadLoop(f))
           IN got' = Append(got, IF fault = <<"drop", f>> THEN <<>> ELSE IF fault = <<"repeat", f>> THEN mesh \o mesh ELSE mesh)
        /\ UNCHANGED <<kind, stored, flags, fault, phase>>
Next == Store \/ List \/ Damage \/ Read
Spec == Init /\ [][Next]_vars

Done == phase = "read" /\ Len(got) = Len(flags)
RECURSIVE All(_)
All(i) == IF i > Len(got) THEN <<>> ELSE got[i] \o All(i + 1)
Walks == Done => \A f \in 1 .. Len(flags) : Chained(ReadLoop(f))
ClosesUp == Done => (ClosedUp(Chain(All(1), 1)) = (fault = <<"none">>))
Bit(b) == IF b THEN " 1" ELSE " 0"
RECURSIVE Text(_, _)
Text(bs, i) == IF i > Len(bs) THEN "" ELSE Bit(bs[i]) \o Text(bs, i + 1)
Emit == (phase = "read" /\ got = <<>> /\ fault = <<"none">>) => PrintT("@@SCN " \o ToString(kind) \o Text(stored, 1) \o Text(flags, 1))
=============================================================================
