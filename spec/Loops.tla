------------------------------- MODULE Loops --------------------------------
(***************************************************************************)
(* From the samples of the edges of a loop to a polygon.  Samples come in  *)
(* order; one that coincides with the last vertex kept is dropped; at the  *)
(* end vertices that coincide with the first one are taken off again.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Take(S(_, _), kept, x) == IF kept # <<>> /\ S(kept[Len(kept)], x) THEN kept ELSE Append(kept, x)

RECURSIVE CloseUp(_, _)
CloseUp(S(_, _), kept) ==
    IF kept # <<>> /\ S(kept[1], kept[Len(kept)]) THEN CloseUp(S, SubSeq(kept, 1, Len(kept) - 1)) ELSE kept
=============================================================================
