------------------------------- MODULE MCMemo -------------------------------
(***************************************************************************)
(* Objects that may remember an answer.  Handles hold contents; make,      *)
(* clone, edit and ask act on them.  The right answer to the question is   *)
(* the content itself.  What an implementation remembers:                  *)
(*   "none"    nothing                                                     *)
(*   "own"     the last answer of an object, forgotten when it is edited   *)
(*   "stale"   the last answer of an object, kept over edits               *)
(*   "shared"  the last answer, whichever object gave it                   *)
(*   "keyed"   the last answer of any object, with the content it is for   *)
(*   "weak"    the last answer, with a part of the content it is for       *)
(*   "touch"   asking changes the object (its content gets a mark)         *)
(*   "alias"   a clone shares the data of its original                     *)
(* The judgement of C27 runs along: what has been answered for a content,  *)
(* and what every handle holds.  Invariants: it never rejects an           *)
(* implementation that remembers rightly, and as long as it accepts one    *)
(* whose questions are all asked again of equal objects where nothing has  *)
(* been asked before (another process), no answer so far was wrong.        *)
(* Complete sequences are the scenarios.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Handles, Contents, Steps

VARIABLES impl, data, hidden, last, judge, held, ok, wrong, script, done
vars == <<impl, data, hidden, last, judge, held, ok, wrong, script, done>>

Impls == {"none", "own", "stale", "shared", "keyed", "weak", "touch", "alias"}
Good == {"none", "own", "keyed"}
Nil == 0
\* an edit is a function of the content
Edited(c) == c + Cardinality(Contents)
Marked(c) == c + 100

Init == /\ impl \in Impls
        /\ data = [h \in Handles |-> Nil] /\ hidden = [h \in Handles |-> Nil] /\ last = <<Nil, Nil>>
        /\ judge = <<>> /\ held = [h \in Handles |-> Nil]
        /\ ok = TRUE /\ wrong = FALSE /\ script = <<>> /\ done = FALSE

Log(op, h, x) == script' = script \o <<op, h, x>>
More == Len(script) < 3 * Steps /\ ~done

Make(h, c) ==
    /\ data' = [data EXCEPT ![h] = c] /\ hidden' = [hidden EXCEPT ![h] = Nil]
    /\ held' = [held EXCEPT ![h] = c] /\ Log(0, h, c)
    /\ UNCHANGED <<impl, last, judge, ok, wrong, done>>
Clone(h, g) ==
    /\ h # g /\ data[g] # Nil
    /\ data' = [data EXCEPT ![h] = IF impl = "alias" THEN 1000 + g ELSE data[g]]
    /\ hidden' = [hidden EXCEPT ![h] = hidden[g]]
    /\ held' = [held EXCEPT ![h] = held[g]] /\ Log(1, h, g)
    /\ UNCHANGED <<impl, last, judge, ok, wrong, done>>
\* the data of an alias is its original's
RECURSIVE In(_, _, _)
In(d, h, k) == IF d[h] > 1000 /\ k > 0 THEN In(d, d[h] - 1000, k - 1) ELSE d[h]
Now(h) == In(data, h, 3)
Edit(h) ==
    /\ data[h] # Nil /\ held[h] \in Contents /\ Now(h) \in Contents
    /\ data' = IF data[h] > 1000 THEN [data EXCEPT ![data[h] - 1000] = Edited(Now(h))] ELSE [data EXCEPT ![h] = Edited(Now(h))]
    /\ hidden' = IF impl = "own" THEN [hidden EXCEPT ![h] = Nil] ELSE hidden
    /\ held' = [held EXCEPT ![h] = Edited(held[h])] /\ Log(2, h, 0)
    /\ UNCHANGED <<impl, last, judge, ok, wrong, done>>
Part(c) == 1000 + (c % 2)
Answer(h) == CASE impl \in {"own", "stale"} /\ hidden[h] # Nil -> hidden[h]
               [] impl = "shared" /\ last[2] # Nil -> last[2]
               [] impl = "keyed" /\ last[1] = Now(h) -> last[2]
               [] impl = "weak" /\ last[1] = Part(Now(h)) -> last[2]
               [] OTHER -> Now(h)
Ask(h) ==
    /\ data[h] # Nil
    /\ LET a == Answer(h)
           fresh == held[h]     \* what an equal fresh object answers
       IN /\ hidden' = IF impl \in {"own", "stale"} THEN [hidden EXCEPT ![h] = a] ELSE hidden
          /\ last' = <<IF impl = "weak" THEN Part(Now(h)) ELSE Now(h), a>>
          /\ data' = IF impl = "touch" /\ Now(h) < 100 THEN [data EXCEPT ![h] = Marked(Now(h))] ELSE data
          /\ wrong' = (wrong \/ a # held[h])
          \* a process of its own asks the same of an equal object, and the session looks at the data afterwards
          /\ judge' = [x \in (DOMAIN judge) \cup {held[h]} |-> IF x = held[h] THEN fresh ELSE judge[x]]
          /\ ok' = (ok /\ a = fresh /\ \A g \in Handles : In(data', g, 3) = held[g])
    /\ Log(3, h, 0)
    /\ UNCHANGED <<impl, held, done>>
End == /\ ~done /\ Len(script) = 3 * Steps /\ done' = TRUE
       /\ UNCHANGED <<impl, data, hidden, last, judge, held, ok, wrong, script>>
Next == \/ More /\ \E h \in Handles : \/ \E c \in Contents : data[h] = Nil /\ Make(h, c)
                                      \/ \E g \in Handles : data[h] = Nil /\ Clone(h, g)
                                      \/ Edit(h) \/ Ask(h)
        \/ End
Spec == Init /\ [][Next]_vars

\* a right implementation is never rejected
Sound == impl \in Good => ok /\ ~wrong
\* what is accepted had no wrong answer
Complete == ok => ~wrong
RECURSIVE Flat(_)
Flat(i) == IF i > Len(script) THEN "" ELSE " " \o ToString(script[i]) \o Flat(i + 1)
Asks == \E i \in 1 .. Len(script) : i % 3 = 1 /\ script[i] = 3
Emit == (done /\ impl = "none" /\ Asks) => PrintT("@@SCN" \o Flat(1))
=============================================================================
