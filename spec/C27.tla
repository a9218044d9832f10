-------------------------------- MODULE C27 --------------------------------
(***************************************************************************)
(* C27  Answers depend on the geometry alone; queries and saves change     *)
(* nothing else.                                                           *)
(* Model state:                                                            *)
(*   obj    the content (a digest of all public data) each handle holds    *)
(*   memo   what has been answered so far: <<content, question>> -> answer *)
(*   files  the files of the folder the session works in, with contents    *)
(* Nothing here says what an answer should be (C01 .. C26 do); it says     *)
(* that the answer is a function of content and question, whatever was     *)
(* asked, edited, cloned or saved before, of this object or another, in    *)
(* this thread or another.  Events:                                        *)
(*   make   h, c        a new object from data with content c              *)
(*   clone  h, from     copies have a life of their own                    *)
(*   edit   h, q, c     an edit is a function of content and edit, too     *)
(*   ask    h, q, a     (free: the answer may depend on random probes)     *)
(*   look   h, c        the public data of h now                           *)
(*   save   h, file, q, a   a file with content a was to be written        *)
(*   load   file, q, a  what reading gives; a function of the content      *)
(*   folder names, sums the whole folder now                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Conform

Fresh == [obj |-> <<>>, memo |-> <<>>, files |-> <<>>]
Start(st) == IF st = <<>> THEN Fresh ELSE st

Set(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* the answer a to question q about content c
Recall(st, c, q, a, what) ==
    LET k == <<c, q>>
    IN IF k \in DOMAIN st.memo
       THEN IF st.memo[k] = a THEN Ok(st) ELSE No(what \o " gives another answer than before: " \o q)
       ELSE Ok([st EXCEPT !.memo = Set(@, k, a)])

Folder(e) == [n \in {e.names[i] : i \in 1 .. Len(e.names)} |-> e.sums[CHOOSE i \in 1 .. Len(e.names) : e.names[i] = n]]

JudgeC27(e, s) ==
    LET st == Start(s)
    IN CASE e.op = "make"  -> Ok([st EXCEPT !.obj = Set(@, e.h, e.c)])
         [] e.op = "clone" -> Ok([st EXCEPT !.obj = Set(@, e.h, st.obj[e.from])])
         [] e.op = "edit"  ->
               LET r == Recall(st, st.obj[e.h], e.q, e.c, "an edit")
               IN IF r.why # "" THEN r ELSE Ok([r.st EXCEPT !.obj = Set(@, e.h, e.c)])
         [] e.op = "ask"   -> IF e.free THEN Ok(st) ELSE Recall(st, st.obj[e.h], e.q, e.a, "a question")
         [] e.op = "look"  -> Expect(st.obj[e.h] = e.c, st, "an object changed although nothing was done to it: " \o e.q)
         [] e.op = "save"  ->
               LET r == Recall(st, st.obj[e.h], e.q, e.a, "a save")
               IN IF r.why # "" THEN r ELSE Ok([r.st EXCEPT !.files = Set(@, e.file, e.a)])
         [] e.op = "load"  -> Recall(st, st.files[e.file], e.q, e.a, "a load")
         [] e.op = "folder" ->
               IF DOMAIN Folder(e) # DOMAIN st.files THEN No("files appeared or vanished besides those that were saved")
               ELSE Expect(Folder(e) = st.files, st, "a file changed that was not saved to, or was not what its save wrote")
         [] OTHER -> No("unknown event")
=============================================================================
