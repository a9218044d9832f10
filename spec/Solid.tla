------------------------------- MODULE Solid --------------------------------
(***************************************************************************)
(* Surfaces as chains.  An oriented edge is a pair of labels <<a, b>>; a   *)
(* triangle contributes its three.  A set of triangles is closed if every  *)
(* edge is passed as often one way as the other: nothing is left over.     *)
(***************************************************************************)
EXTENDS StepLoop, FiniteSets, TLC

EdgesOf(t) == <<<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>>>
RECURSIVE Chain(_, _)
Chain(ts, i) == IF i > Len(ts) THEN <<>> ELSE EdgesOf(ts[i]) \o Chain(ts, i + 1)

Range(f) == {f[x] : x \in DOMAIN f}
Proper(es) == SelectSeq(es, LAMBDA e : e[1] # e[2])
\* edges passed more often than their opposites (however much more often)
LeftOver(es) ==
    LET ps == TLCEval(Proper(es))
        all == TLCEval(Range(ps))
        times(e) == Cardinality({i \in 1 .. Len(ps) : ps[i] = e})
    IN TLCEval(IF Cardinality(all) = Len(ps) THEN {e \in all : Swap(e) \notin all}
               ELSE {e \in all : LET back == times(Swap(e)) IN times(e) > back})
ClosedUp(es) == LeftOver(es) = {}

\* a loop of corners, meshed as a fan
FanOf(walk) == [i \in 1 .. Len(walk) - 2 |-> <<walk[1][1], walk[i + 1][1], walk[i + 2][1]>>]
=============================================================================
