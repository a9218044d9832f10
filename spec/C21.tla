-------------------------------- MODULE C21 --------------------------------
(***************************************************************************)
(* C21  Point-cloud files round-trip and bad input is an error, not a      *)
(* crash.                                                                  *)
(* Model state: a file system, what every file holds: saved points, or     *)
(* lines written by hand.  Events: save (points, points with normals or    *)
(* plane points), write (lines by hand), remove, load, look (the values    *)
(* in a file, row by row), scale.  Doubles are bit patterns, except in     *)
(* scale.                                                                  *)
(***************************************************************************)
EXTENDS Vec, Columns, Conform

RECURSIVE Meaning(_, _, _)
Meaning(s, lines, i) ==
    IF i > Len(lines) THEN s
    ELSE LET l == lines[i]
         IN Meaning(ReadLine(s, l.comment, Len(l.cols), LAMBDA c : l.cols[c] = <<>>, LAMBDA c : l.cols[c]), lines, i + 1)

\* what loading a file gives
Loaded(f) == IF f.kind = "lines" THEN Meaning(Start, f.lines, 1)
             ELSE Meaning(Start, [i \in 1 .. Len(f.rows) |-> [comment |-> FALSE, cols |-> f.rows[i]]], 1)

\* the double nearest to the product, or next to it
Scaled(y, x, k) == LET p == RMul(F64(x), F64(k)) IN RLe(RAbs(RSub(F64(y), p)), RAdd(RMul(RPow2(-52), RAbs(p)), RPow2(-1074)))

JudgeC21(e, s) ==
    CASE e.op = "start"  -> Ok([n \in {} |-> <<>>])
      [] e.op = "save"   -> IF e.err # "" THEN No("saving failed: " \o e.err)
                            ELSE Ok((e.name :> [kind |-> "rows", rows |-> e.rows]) @@ s)
      [] e.op = "write"  -> Ok((e.name :> [kind |-> "lines", lines |-> e.lines]) @@ s)
      [] e.op = "remove" -> Ok([n \in DOMAIN s \ {e.name} |-> s[n]])
      [] e.op = "look"   -> Expect(e.rows = s[e.name].rows, s, "the file does not contain exactly the saved values")
      [] e.op = "load"   ->
           IF e.name \notin DOMAIN s
           THEN Expect(e.err # "", s, "loading a missing file is not an error")
           ELSE LET m == Loaded(s[e.name])
                IN IF m.err THEN Expect(e.err # "", s, "a malformed number is not an error")
                   ELSE IF e.err # "" THEN No("loading failed: " \o e.err)
                   ELSE IF Len(e.rows) # Len(m.rows) THEN No("another number of points was loaded")
                   ELSE Expect(e.rows = m.rows, s, "the loaded points are not those of the file, in order")
      [] e.op = "scale"  ->
           Expect(Len(e.out) = Len(e.ps) /\ AllVec(e.out, 3)
                  /\ \A i \in 1 .. Len(e.ps) : \A d \in 1 .. 3 : Scaled(e.out[i][d], e.ps[i][d], e.k), s,
                  "scaling does not multiply every coordinate")
=============================================================================
