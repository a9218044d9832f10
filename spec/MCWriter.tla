------------------------------ MODULE MCWriter ------------------------------
(***************************************************************************)
(* Saving to a device that takes only Room bytes.  A file is a sequence of *)
(* records of some sizes; optionally one cell of it (the triangle count of *)
(* an STL file) is written as a placeholder and overwritten at the end.    *)
(* The writer collects bytes in a buffer of Buf bytes (0: none) and hands  *)
(* them to the device, which takes any positive part of what it is given   *)
(* while there is room, and fails when there is none.                      *)
(*   policy "all":  what was not taken is handed over again                *)
(*   policy "once": what was not taken is forgotten (File::write)          *)
(*   closing "flush": the buffer is emptied before success is reported     *)
(*   closing "drop":  errors of emptying it are not seen (drop of a        *)
(*                    BufWriter)                                           *)
(* Invariants: with all+flush, success means the file is complete, and     *)
(* failure that there was not enough room; with any policy success is      *)
(* false exactly when bytes were lost.  So the judgement of C26, success   *)
(* if and only if there was room, and success only with the whole file, is *)
(* sound and catches both mistakes wherever they matter.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxRecords, Sizes, Bufs, MaxRoom

VARIABLES recs, cell, buf, policy, closing, room, pc, k, pending, disk, lost, patched
vars == <<recs, cell, buf, policy, closing, room, pc, k, pending, disk, lost, patched>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Total == Sum(recs)

\* pc: "write" (records), "flush" (before the cell or the end), "patch", "ok", "err"
Init == /\ recs \in UNION {[1 .. n -> Sizes] : n \in 0 .. MaxRecords}
        /\ cell \in {FALSE, TRUE} /\ buf \in Bufs
        /\ policy \in {"all", "once"} /\ closing \in {"flush", "drop"}
        /\ room \in 0 .. MaxRoom
        /\ pc = "write" /\ k = 1 /\ pending = 0 /\ disk = 0 /\ lost = 0 /\ patched = FALSE

Free == room - disk
\* the device is offered n bytes; it takes t of them
Takes(n) == IF n = 0 THEN {0} ELSE 1 .. (IF n <= Free THEN n ELSE Free)

Record == /\ pc = "write" /\ k <= Len(recs) /\ pending <= buf
          /\ pending' = pending + recs[k] /\ k' = k + 1
          /\ UNCHANGED <<recs, cell, buf, policy, closing, room, pc, disk, lost, patched>>
\* an unbuffered writer hands over every record; a buffered one when the buffer is full, or before the end
Due == pending > 0 /\ (pending > buf \/ (pc = "flush"))
Hand == /\ pc \in {"write", "flush"} /\ Due
        /\ IF Free = 0
           THEN IF pc = "flush" /\ closing = "drop" /\ ~cell /\ buf > 0
                THEN lost' = lost + pending /\ pending' = 0 /\ UNCHANGED <<disk, pc>>
                ELSE pc' = "err" /\ UNCHANGED <<pending, disk, lost>>
           ELSE \E t \in Takes(pending) :
                    /\ disk' = disk + t
                    /\ IF policy = "all" THEN pending' = pending - t /\ lost' = lost
                       ELSE pending' = 0 /\ lost' = lost + pending - t
                    /\ pc' = pc
        /\ UNCHANGED <<recs, cell, buf, policy, closing, room, k, patched>>
Done == /\ pc = "write" /\ k > Len(recs) /\ pending <= buf /\ pc' = "flush"
        /\ UNCHANGED <<recs, cell, buf, policy, closing, room, k, pending, disk, lost, patched>>
Finish == /\ pc = "flush" /\ pending = 0
          /\ pc' = IF cell THEN "patch" ELSE "ok"
          /\ UNCHANGED <<recs, cell, buf, policy, closing, room, k, pending, disk, lost, patched>>
\* overwriting needs no room
Patch == /\ pc = "patch" /\ patched' = TRUE /\ pc' = "ok"
         /\ UNCHANGED <<recs, cell, buf, policy, closing, room, k, pending, disk, lost>>
Next == Record \/ Hand \/ Done \/ Finish \/ Patch
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == pc \in {"ok", "err"}
Good == policy = "all" /\ (closing = "flush" \/ cell \/ buf = 0)
Complete == disk = Total /\ (cell => patched)
Ledger == disk + pending + lost = Sum(SubSeq(recs, 1, k - 1)) /\ disk <= room
Honest == Good /\ pc = "ok" => Complete
Willing == Good /\ pc = "err" => Total > room
\* a false success is always noticed by looking at the file, and only lost bytes make one
Noticed == pc = "ok" => (Complete <=> lost = 0)
Terminates == <>Ends
\* scenarios: the sizes, whether there is a cell, and the room, for endings of the good writer
RECURSIVE Flat(_)
Flat(i) == IF i > Len(recs) THEN "" ELSE " " \o ToString(recs[i]) \o Flat(i + 1)
Emit == (Ends /\ policy = "all" /\ closing = "flush" /\ buf = 0) =>
            PrintT("@@SCN " \o (IF cell THEN "1 " ELSE "0 ") \o ToString(room) \o " " \o ToString(Len(recs)) \o Flat(1))
=============================================================================
