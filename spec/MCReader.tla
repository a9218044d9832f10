------------------------------ MODULE MCReader ------------------------------
(***************************************************************************)
(* The point-cloud reader on all short files: lines are written one by one *)
(* and read one by one.  Invariants: the rows are exactly the point lines  *)
(* before the first malformed one, in order, from the right columns; an    *)
(* error is reported exactly if a column that matters is malformed, and    *)
(* stays.  The files are scenarios.                                        *)
(***************************************************************************)
EXTENDS Columns, TLC

CONSTANTS MaxLines, Lines
\* <<columns, malformed column>>; columns = -1: a comment
AllLines == {<<-1, 0>>} \cup {<<n, 0>> : n \in 0 .. 6} \cup {<<3, b>> : b \in 1 .. 3} \cup {<<4, b>> : b \in 1 .. 4}
            \cup {<<2, 1>>, <<5, 2>>, <<6, 6>>, <<1, 1>>}
VARIABLES file, phase, k, s
vars == <<file, phase, k, s>>

Init == file = <<>> /\ phase = "build" /\ k = 1 /\ s = Start
Write == /\ phase = "build" /\ Len(file) < MaxLines
         /\ \E l \in Lines : file' = Append(file, l)
         /\ UNCHANGED <<phase, k, s>>
Load == phase = "build" /\ phase' = "read" /\ UNCHANGED <<file, k, s>>
Read == /\ phase = "read" /\ k <= Len(file)
        /\ LET l == file[k] IN s' = ReadLine(s, l[1] = -1, l[1], LAMBDA c : c = l[2], LAMBDA c : <<k, c>>)
        /\ k' = k + 1 /\ UNCHANGED <<file, phase>>
Next == Write \/ Load \/ Read
Spec == Init /\ [][Next]_vars

IsPoint(l) == l[1] \in {3, 4}
Spoilt(l)  == (l[1] = 3 /\ l[2] > 0) \/ (l[1] = 4 /\ l[2] > 1)
ErrorIff == s.err <=> \E i \in 1 .. k - 1 : Spoilt(file[i])
RowsAre ==
    LET stop == IF s.err THEN CHOOSE i \in 1 .. k - 1 : Spoilt(file[i]) /\ \A j \in 1 .. i - 1 : ~Spoilt(file[j]) ELSE k
        idx == SelectSeq([i \in 1 .. stop - 1 |-> i], LAMBDA i : IsPoint(file[i]))
    IN s.rows = [j \in 1 .. Len(idx) |-> [c \in 1 .. 3 |-> <<idx[j], file[idx[j]][1] - 3 + c>>]]
RECURSIVE Text(_)
Text(i) == IF i > Len(file) THEN "" ELSE " " \o ToString(file[i][1]) \o " " \o ToString(file[i][2]) \o Text(i + 1)
Emit == (phase = "read" /\ k = 1) => PrintT("@@SCN " \o ToString(Len(file)) \o Text(1))
=============================================================================
