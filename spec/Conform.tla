------------------------------ MODULE Conform -------------------------------
(***************************************************************************)
(* Trace validation.  A history is what one run of the real library did:   *)
(* a sequence of events, each an operation with its arguments and what the *)
(* library returned.  The model state st is the abstract object the        *)
(* operations act on (a curve, a model, a file, ...).  One step consumes   *)
(* one event: Judge(e, st) says whether the specification allows this      *)
(* outcome in this state (why = "" if so) and gives the next model state.  *)
(* A history whose next event is not allowed is rejected, with the reason. *)
(* Every history is consumed, so one run reports all rejections.           *)
(***************************************************************************)
EXTENDS Sequences, Integers, TLC, Json, IOUtils

CONSTANT Judge(_, _)

Histories == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES hist, pos, model
tvars == <<hist, pos, model>>

Ok(s)     == [why |-> "", st |-> s]
No(w)     == [why |-> w, st |-> <<>>]
\* a judgement that keeps the model state
Expect(c, s, w) == IF c THEN Ok(s) ELSE No(w)

Has(e, f) == f \in DOMAIN e

TraceInit == hist \in 1 .. Len(Histories) /\ pos = 0 /\ model = <<>>

TraceNext ==
    /\ pos < Len(Histories[hist].ev)
    /\ LET e == Histories[hist].ev[pos + 1]
           r == IF Has(e, "panic") THEN No("the library panicked: " \o e.panic) ELSE Judge(e, model)
       IN IF r.why = ""
          THEN /\ pos' = pos + 1
               /\ model' = r.st
          ELSE /\ PrintT("@@REJECT " \o ToString(hist) \o " " \o ToString(pos + 1) \o " " \o r.why)
               /\ pos' = Len(Histories[hist].ev) + 1
               /\ model' = <<>>
    /\ hist' = hist

TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
