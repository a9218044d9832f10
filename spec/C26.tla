-------------------------------- MODULE C26 --------------------------------
(***************************************************************************)
(* C26  A save that reports success has written the whole file.            *)
(* Model state: the content (as a sequence of chunk sums, with its length) *)
(* that the save gives when nothing is in its way; MCWriter says why the   *)
(* judgement below is the right one.  Events:                              *)
(*   whole   a save without limits: must succeed                           *)
(*   save    a save to a device with room for so many bytes: success if    *)
(*           and only if the content fits, and then the file is the whole  *)
(*   bad     a destination that cannot be written: an error                *)
(*   load    a source that cannot be read: an error                        *)
(* A panic is never allowed.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, Conform

JudgeC26(e, whole) ==
    CASE e.op = "whole" ->
            IF e.err # "" THEN No("saving failed: " \o e.err)
            ELSE IF ~e.there THEN No("saving succeeded but there is no file")
            ELSE Ok([len |-> e.len, sums |-> e.sums])
      [] e.op = "save" ->
            LET fits == whole.len <= e.room
                same == e.there /\ e.len = whole.len /\ e.sums = whole.sums
            IN IF e.err = "" /\ ~same THEN No("saving reports success but the file has " \o ToString(e.len) \o " bytes of " \o ToString(whole.len) \o " or differs")
               ELSE IF e.err # "" /\ fits THEN No("saving failed although there is room: " \o e.err)
               ELSE Ok(whole)
      [] e.op = "bad" -> Expect(e.err # "", whole, "saving to " \o e.dest \o " reports success")
      [] e.op = "load" -> Expect(e.err # "", whole, "loading from " \o e.from \o " reports success")
      [] OTHER -> No("unknown event")
=============================================================================
