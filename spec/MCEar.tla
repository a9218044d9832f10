------------------------------- MODULE MCEar --------------------------------
(***************************************************************************)
(* Ear clipping as a state machine, over every simple lattice polygon.     *)
(* A polygon is built vertex by vertex as a simple path and closed; then   *)
(* any ear may be cut off and any straight vertex dropped, in any order.   *)
(* Invariants: area is conserved, some step is possible until nothing is   *)
(* left (two ears theorem), and the triangles of a finished run tile the   *)
(* polygon - which also shows the judgement of Tiling.tla sound - while    *)
(* leaving out any of them does not.  Closed polygons are scenarios.       *)
(***************************************************************************)
EXTENDS Tiling, Lattice

CONSTANTS W, H, MaxV, Clip
VARIABLES path, phase, ring, ts

Sites == (0 .. W) \X (0 .. H)
P(x) == <<RInt(x[1]), RInt(x[2])>>
\* can the path go on to x without touching itself?
Free(x) == LET n == Len(path)
               z == path[n]
           IN /\ \A i \in 1 .. n : path[i] # x
              /\ \A i \in 1 .. n - 2 : ~Meet(path[i], path[i + 1], z, x)
              /\ n >= 2 => ~IOn(path[n - 1], z, x) /\ ~IOn(z, x, path[n - 1])
Closes == LET n == Len(path)
              z == path[n]
              a == path[1]
          IN /\ n >= 3
             /\ \A i \in 2 .. n - 2 : ~Meet(path[i], path[i + 1], z, a)
             /\ ~IOn(path[n - 1], z, a) /\ ~IOn(z, a, path[n - 1])
             /\ ~IOn(a, path[2], z) /\ ~IOn(z, a, path[2])

Pts == TLCEval([i \in 1 .. Len(path) |-> P(path[i])])
Init == \E a \in Sites : path = <<a>> /\ phase = "build" /\ ring = <<>> /\ ts = <<>>
Grow == /\ phase = "build" /\ Len(path) < MaxV
        /\ \E x \in Sites : Less(path[1], x) /\ Free(x) /\ path' = Append(path, x)
        /\ UNCHANGED <<phase, ring, ts>>
Close == /\ phase = "build" /\ Closes /\ RSign(Area2(Pts)) > 0
         /\ phase' = "clip" /\ ring' = [i \in 1 .. Len(path) |-> i]
         /\ UNCHANGED <<path, ts>>

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
At(i) == path[ring[i]]
Before(i) == path[ring[Prev(Len(ring), i)]]
After(i) == path[ring[Next1(Len(ring), i)]]
Inside(a, b, c, x) == ITurn(a, b, x) >= 0 /\ ITurn(b, c, x) >= 0 /\ ITurn(c, a, x) >= 0
IsEar(i) == LET a == Before(i)  b == At(i)  c == After(i) IN
            /\ ITurn(a, b, c) > 0
            /\ \A k \in 1 .. Len(ring) : LET x == At(k) IN x \in {a, b, c} \/ ~Inside(a, b, c, x)
CutEar == /\ phase = "clip" /\ Clip /\ Len(ring) >= 3
          /\ \E i \in 1 .. Len(ring) :
                /\ IsEar(i)
                /\ ts' = Append(ts, <<ring[Prev(Len(ring), i)], ring[i], ring[Next1(Len(ring), i)]>>)
                /\ ring' = IF Len(ring) = 3 THEN <<>> ELSE Without(ring, i)
          /\ UNCHANGED <<path, phase>>
Straight(i) == ITurn(Before(i), At(i), After(i)) = 0
DropStraight == /\ phase = "clip" /\ Clip /\ Len(ring) > 3
                /\ \E i \in 1 .. Len(ring) : Straight(i) /\ ring' = Without(ring, i)
                /\ UNCHANGED <<path, phase, ts>>
Next == Grow \/ Close \/ CutEar \/ DropStraight
Spec == Init /\ [][Next]_<<path, phase, ring, ts>>

RingArea == IF ring = <<>> THEN RInt(0) ELSE Area2([i \in 1 .. Len(ring) |-> P(At(i))])
RECURSIVE TriArea(_)
TriArea(k) == IF k = 0 THEN RInt(0)
              ELSE RAdd(Turn(P(path[ts[k][1]]), P(path[ts[k][2]]), P(path[ts[k][3]])), TriArea(k - 1))
AreaKept == phase = "clip" => REq(RAdd(RingArea, TriArea(Len(ts))), Area2(Pts))
Progress == (phase = "clip" /\ ring # <<>>) => (\E i \in 1 .. Len(ring) : IsEar(i) \/ (Straight(i) /\ Len(ring) > 3))
Done == phase = "clip" /\ Clip /\ ring = <<>>
Whole == <<[i \in 1 .. Len(path) |-> i]>>
Sound == Done => TilingFault(Pts, Len(path), Whole, ts) = ""
Complete == Done => \A k \in 1 .. Len(ts) :
               /\ TilingFault(Pts, Len(path), Whole, Without(ts, k)) # ""
               /\ TilingFault(Pts, Len(path), Whole, Append(ts, ts[k])) # ""
               /\ TilingFault(Pts, Len(path), Whole, [ts EXCEPT ![k] = <<ts[k][2], ts[k][1], ts[k][3]>>]) # ""
RECURSIVE Flat(_)
Flat(i) == IF i > Len(path) THEN "" ELSE " " \o ToString(path[i][1]) \o " " \o ToString(path[i][2]) \o Flat(i + 1)
Emit == (phase = "clip" /\ ts = <<>> /\ Len(ring) = Len(path)) => PrintT("@@SCN " \o ToString(Len(path)) \o Flat(1))
=============================================================================
