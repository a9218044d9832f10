------------------------------ MODULE MCFront -------------------------------
(***************************************************************************)
(* The advancing front as a state machine.  A region is bounded by loops;  *)
(* the front starts as their edges.  A step takes any edge of the front    *)
(* and any node to its left - one of the front, or a new one - such that   *)
(* the triangle meets the front nowhere else; its two new edges enter the  *)
(* front, or cancel against the opposite edge that is already there.       *)
(* Invariants: the front stays balanced, front and boundary of the         *)
(* triangles together are the loops, area is conserved, no edge of the     *)
(* front is ever stuck.  An empty front then means a tiling.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Lattice

CONSTANTS Regions, Extra
VARIABLES region, front, ts, fresh
vars == <<region, front, ts, fresh>>

\* loops of lattice points; twice the area of the region
Loops(k) == CASE k = 1 -> << << <<0,0>>, <<2,0>>, <<2,2>>, <<1,1>>, <<0,2>> >> >>
              [] k = 2 -> << << <<0,0>>, <<1,0>>, <<2,0>>, <<2,1>>, <<1,1>>, <<0,1>> >> >>
              [] k = 3 -> << << <<0,0>>, <<3,0>>, <<3,3>>, <<0,3>> >>, << <<1,1>>, <<1,2>>, <<2,1>> >> >>
              [] k = 4 -> << << <<0,0>>, <<3,0>>, <<3,1>>, <<1,1>>, <<1,2>>, <<3,2>>, <<3,3>>, <<0,3>> >> >>
              [] k = 5 -> << << <<0,0>>, <<5,0>>, <<2,4>> >>, << <<1,1>>, <<2,2>>, <<2,1>> >> >>
              [] k = 6 -> << << <<0,0>>, <<2,1>>, <<4,0>>, <<3,2>>, <<4,4>>, <<2,3>>, <<0,4>>, <<1,2>> >> >>
\* lattice points strictly inside, for new nodes
Inner(k) == IF k = 3 \/ k = 6 THEN {<<2,2>>} ELSE IF k = 5 THEN {<<3,1>>} ELSE {}
EdgeSet(l) == {<<l[i], l[(i % Len(l)) + 1]>> : i \in 1 .. Len(l)}
Boundary(k) == UNION {EdgeSet(Loops(k)[i]) : i \in 1 .. Len(Loops(k))}
Rev(e) == <<e[2], e[1]>>

Nodes == {e[1] : e \in front}
TriEdges(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
Covered == UNION {TriEdges(t) : t \in ts}
InClosed(a, b, c, x) == ITurn(a, b, x) >= 0 /\ ITurn(b, c, x) >= 0 /\ ITurn(c, a, x) >= 0

\* a new edge ac is clear of the front: it is in it already (the other way round), or
\* meets no edge of it but at shared ends
Clear(a, c) == <<c, a>> \in front \/
               \A e \in front : \/ /\ {e[1], e[2]} \cap {a, c} = {}
                                   /\ ~Meet(a, c, e[1], e[2])
                                \/ /\ Cardinality({e[1], e[2]} \cap {a, c}) = 1
                                   /\ LET x == IF e[1] \in {a, c} THEN e[2] ELSE e[1]
                                          y == IF a \in {e[1], e[2]} THEN c ELSE a
                                      IN ~IOn(a, c, x) /\ ~IOn(e[1], e[2], y)
Valid(e, c) == LET a == e[1]  b == e[2] IN
               /\ ITurn(a, b, c) > 0
               /\ \A x \in Nodes : x \in {a, b, c} \/ ~InClosed(a, b, c, x)
               /\ Clear(a, c) /\ Clear(c, b)

\* the new directed edges enter or cancel
Advance(f, e, c) == LET a == e[1]  b == e[2]
                        g == f \ {e}
                        add(h, d) == IF Rev(d) \in h THEN h \ {Rev(d)} ELSE h \cup {d}
                    IN add(add(g, <<a, c>>), <<c, b>>)

Init == \E k \in Regions : region = k /\ front = Boundary(k) /\ ts = {} /\ fresh = 0
Old == /\ \E e \in front, c \in Nodes :
             /\ Valid(e, c)
             /\ front' = Advance(front, e, c)
             /\ ts' = ts \cup {<<e[1], e[2], c>>}
       /\ UNCHANGED <<region, fresh>>
New == /\ fresh < Extra
       /\ \E e \in front, c \in Inner(region) :
             /\ c \notin Nodes /\ \A t \in ts : c \notin {t[1], t[2], t[3]} /\ ~InClosed(t[1], t[2], t[3], c)
             /\ Valid(e, c)
             /\ front' = Advance(front, e, c)
             /\ ts' = ts \cup {<<e[1], e[2], c>>}
       /\ fresh' = fresh + 1
       /\ UNCHANGED region
Next == Old \/ New
Spec == Init /\ [][Next]_vars

Cross(a, b) == a[1] * b[2] - a[2] * b[1]
SumCross(es) == LET RECURSIVE S(_)
                    S(x) == IF x = {} THEN 0 ELSE LET e == CHOOSE e \in x : TRUE IN Cross(e[1], e[2]) + S(x \ {e})
                IN S(es)
TriArea(t) == ITurn(t[1], t[2], t[3])
RECURSIVE SumArea(_)
SumArea(x) == IF x = {} THEN 0 ELSE LET t == CHOOSE t \in x : TRUE IN TriArea(t) + SumArea(x \ {t})

Balanced == \A x \in Nodes : Cardinality({e \in front : e[1] = x}) = Cardinality({e \in front : e[2] = x})
Oriented == \A e \in front : Rev(e) \notin front
\* the front is what the triangles leave of the loops
Chain == front = {e \in Boundary(region) : e \notin Covered}
                 \cup {Rev(e) : e \in {d \in Covered : Rev(d) \notin Covered /\ d \notin Boundary(region)}}
AreaKept == SumArea(ts) + SumCross(front) = SumCross(Boundary(region))
NoEdgeTwice == Cardinality(Covered) = 3 * Cardinality(ts)
NeverStuck == \A e \in front : \E c \in Nodes : Valid(e, c)
Finished == front = {} => {d \in Covered : Rev(d) \notin Covered} = Boundary(region)
=============================================================================
