-------------------------------- MODULE C15 --------------------------------
(***************************************************************************)
(* C15  A planar face with holes is triangulated exactly, whatever the     *)
(* loop order.  Model state: the frame.  Events: trim(loops) -> mesh, the  *)
(* same loops in several orders.                                           *)
(***************************************************************************)
EXTENDS Trim

JudgeC15(e, f) ==
    IF e.op = "plane" THEN Ok(Frame(e))
    ELSE LET w == IF e.op = "outline" THEN OutlineFault(f, e) ELSE TrimFault(f, e) IN Expect(w = "", f, w)
=============================================================================
