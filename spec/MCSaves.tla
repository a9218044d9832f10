------------------------------- MODULE MCSaves ------------------------------
(***************************************************************************)
(* Several threads save different models to different files of one folder, *)
(* in two pieces each.  How a save works:                                  *)
(*   "direct"   create the file, write the pieces                          *)
(*   "own"      write a temporary file named after the target, rename it   *)
(*   "fixed"    write a temporary file with a fixed name, rename it        *)
(*   "shared"   collect the pieces in a buffer all saves share, then write *)
(*   "leave"    like "own", but by copying, so the temporary file stays    *)
(* C27 looks at the folder when all are done: exactly the files that were  *)
(* saved, each with the content its save gives when alone.                 *)
(* Invariants: direct and own always end like that; "leave" never does;    *)
(* fixed and shared do when no saves overlap, and for them there are       *)
(* schedules that do not (AllDone => Accepted alone fails).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads

VARIABLES impl, pc, files, buffer, overlapped, err
vars == <<impl, pc, files, buffer, overlapped, err>>

Impls == {"direct", "own", "fixed", "shared", "leave"}
Good == {"direct", "own"}
Target(t) == t
Temp(t) == IF impl = "fixed" THEN 0 ELSE IF impl \in {"own", "leave"} THEN 100 + t ELSE t
Missing == <<0>>
Set(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE Missing

Init == /\ impl \in Impls /\ pc = [t \in Threads |-> "start"] /\ files = <<>> /\ buffer = <<>>
        /\ overlapped = FALSE /\ err = {}

Busy(t) == \E o \in Threads \ {t} : pc[o] \in {"first", "second", "end"}
Create(t) ==
    /\ pc[t] = "start"
    /\ pc' = [pc EXCEPT ![t] = "first"]
    /\ overlapped' = (overlapped \/ Busy(t))
    /\ IF impl = "shared" THEN buffer' = <<>> /\ files' = files
       ELSE files' = Set(files, Temp(t), <<>>) /\ buffer' = buffer
    /\ UNCHANGED <<impl, err>>
Write(t, at, next, piece) ==
    /\ pc[t] = at /\ pc' = [pc EXCEPT ![t] = next]
    /\ IF impl = "shared" THEN buffer' = Append(buffer, piece) /\ files' = files
       ELSE files' = (IF Temp(t) \in DOMAIN files THEN Set(files, Temp(t), Append(files[Temp(t)], piece)) ELSE files) /\ buffer' = buffer
    /\ UNCHANGED <<impl, overlapped, err>>
Finish(t) ==
    /\ pc[t] = "end" /\ pc' = [pc EXCEPT ![t] = "done"]
    /\ CASE impl = "shared" -> files' = Set(files, Target(t), buffer) /\ err' = err
         [] impl = "direct" -> files' = files /\ err' = err
         [] impl = "leave"  -> files' = Set(files, Target(t), files[Temp(t)]) /\ err' = err
         [] OTHER -> IF Temp(t) \in DOMAIN files
                     THEN files' = Set(Without(files, Temp(t)), Target(t), files[Temp(t)]) /\ err' = err
                     ELSE files' = files /\ err' = err \cup {t}
    /\ UNCHANGED <<impl, buffer, overlapped>>
Next == \E t \in Threads : \/ Create(t)
                           \/ Write(t, "first", "second", 10 * t + 1) \/ Write(t, "second", "end", 10 * t + 2)
                           \/ Finish(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Create(t) \/ Write(t, "first", "second", 10 * t + 1)
                                                            \/ Write(t, "second", "end", 10 * t + 2) \/ Finish(t))

AllDone == \A t \in Threads : pc[t] = "done"
Alone(t) == <<10 * t + 1, 10 * t + 2>>
Accepted == err = {} /\ DOMAIN files = {Target(t) : t \in Threads} /\ \A t \in Threads : files[Target(t)] = Alone(t)
Right == AllDone /\ impl \in Good => Accepted
Apart == AllDone /\ ~overlapped /\ impl # "leave" => Accepted
Left == AllDone /\ impl = "leave" => ~Accepted
Ends == <>AllDone
=============================================================================
