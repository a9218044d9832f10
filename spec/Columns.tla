------------------------------ MODULE Columns -------------------------------
(***************************************************************************)
(* What the lines of a point-cloud file mean.  A line is a comment or a    *)
(* number of columns; a column is a number or malformed.  The reader is a  *)
(* machine: rows read so far, or an error, which ends it.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* the columns of a line that make a point: none, or three
PointColumns(n) == CASE n = 3 -> <<1, 2, 3>> [] n = 4 -> <<2, 3, 4>> [] OTHER -> <<>>

\* bad(c): column c is malformed; val(c): its value
ReadLine(s, comment, n, bad(_), val(_)) ==
    IF s.err \/ comment THEN s
    ELSE LET cs == PointColumns(n)
         IN IF cs = <<>> THEN s
            ELSE IF \E i \in 1 .. 3 : bad(cs[i]) THEN [s EXCEPT !.err = TRUE]
            ELSE [s EXCEPT !.rows = Append(@, <<val(cs[1]), val(cs[2]), val(cs[3])>>)]
Start == [rows |-> <<>>, err |-> FALSE]
=============================================================================
