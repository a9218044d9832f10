------------------------------ MODULE MCHoles -------------------------------
(***************************************************************************)
(* Faces with holes: an outer polygon out of a few shapes, then holes put  *)
(* into it one by one, disjoint from everything before, and the order in   *)
(* which the loops are listed.  Invariants: the holes keep apart, their    *)
(* areas fit, and the winding number of the loops at the centre of every   *)
(* lattice cell quarter is 1 or 0, so the loops do bound a region.         *)
(* Finished faces are scenarios.                                           *)
(***************************************************************************)
EXTENDS Planar

CONSTANTS Outers, Sites, MaxHoles
VARIABLES outer, holes, order

Shape(k) == CASE k = 1 -> << <<0,0>>, <<8,0>>, <<8,8>>, <<0,8>> >>
              [] k = 2 -> << <<0,0>>, <<8,0>>, <<8,8>>, <<6,8>>, <<6,4>>, <<5,4>>, <<5,8>>, <<0,8>> >>
              [] k = 3 -> << <<0,0>>, <<7,0>>, <<9,4>>, <<7,8>>, <<0,8>>, <<1,4>> >>
              [] k = 4 -> << <<-2,4>>, <<4,-4>>, <<10,4>>, <<4,12>> >>
Template(k) == CASE k = 1 -> << <<0,0>>, <<0,1>>, <<1,1>>, <<1,0>> >>
                 [] k = 2 -> << <<0,0>>, <<0,1>>, <<1,0>> >>
                 [] k = 3 -> << <<1,0>>, <<0,1>>, <<1,2>>, <<2,1>> >>
                 [] k = 4 -> << <<0,1>>, <<2,2>>, <<1,1>>, <<2,0>> >>     \* an arrow, concave
Extent(k) == IF k <= 2 THEN 1 ELSE 2
Hole(h) == [i \in 1 .. Len(Template(h[1])) |-> <<Template(h[1])[i][1] + h[2], Template(h[1])[i][2] + h[3]>>]
P(x) == <<RInt(x[1]), RInt(x[2])>>
Poly(s) == TLCEval([i \in 1 .. Len(s) |-> P(s[i])])

\* bounding boxes apart
Apart(g, h) == \/ g[2] + Extent(g[1]) < h[2] \/ h[2] + Extent(h[1]) < g[2]
               \/ g[3] + Extent(g[1]) < h[3] \/ h[3] + Extent(h[1]) < g[3]

\* strictly inside: winding number by crossings of the ray to the right of (x, y), no boundary point
RECURSIVE Crossings(_, _, _)
Crossings(ps, q, i) ==
    IF i > Len(ps) THEN 0
    ELSE LET a == ps[i]
             b == ps[Next1(Len(ps), i)]
             up == RLe(a[2], q[2]) /\ RLt(q[2], b[2])
             dn == RLe(b[2], q[2]) /\ RLt(q[2], a[2])
             t == Turn(a, b, q)
         IN (IF up /\ RSign(t) > 0 THEN 1 ELSE IF dn /\ RSign(t) < 0 THEN -1 ELSE 0) + Crossings(ps, q, i + 1)
Winding(ps, q) == Crossings(ps, q, 1)
OnBorder(ps, q) == \E i \in 1 .. Len(ps) : LET a == ps[i]  b == ps[Next1(Len(ps), i)]
                       IN RSign(SegmentDist2(a, b, q)) = 0
\* the box of the hole, grown a little, lies inside the outer polygon
Margin == RFrac(1, 4)
BoxCorners(h) == LET x == h[2]  y == h[3]  e == Extent(h[1]) IN
    {<<RSub(RInt(x), Margin), RSub(RInt(y), Margin)>>, <<RAdd(RInt(x + e), Margin), RSub(RInt(y), Margin)>>,
     <<RSub(RInt(x), Margin), RAdd(RInt(y + e), Margin)>>, <<RAdd(RInt(x + e), Margin), RAdd(RInt(y + e), Margin)>>}
\* all corners inside alone would let a box straddle the notch of shape 2
Centre(h) == <<RFrac(2 * h[2] + Extent(h[1]), 2), RFrac(2 * h[3] + Extent(h[1]), 2)>>
Fits(h) == LET ps == Poly(Shape(outer)) IN
    /\ \A q \in BoxCorners(h) \cup {Centre(h)} : Winding(ps, q) = 1 /\ ~OnBorder(ps, q)
    /\ \A i \in 1 .. Len(Shape(outer)) : LET v == Shape(outer)[i] IN
           ~(v[1] >= h[2] /\ v[1] <= h[2] + Extent(h[1]) /\ v[2] >= h[3] /\ v[2] <= h[3] + Extent(h[1]))

Init == outer \in Outers /\ holes = <<>> /\ order = <<>>
Place == /\ order = <<>> /\ Len(holes) < MaxHoles
         /\ \E k \in 1 .. 4, x \in Sites, y \in Sites :
               LET h == <<k, x, y>> IN
               /\ Fits(h)
               /\ \A i \in 1 .. Len(holes) : Apart(holes[i], h)
               \* one order of placing is enough
               /\ holes # <<>> => (LET g == holes[Len(holes)] IN g[2] < x \/ (g[2] = x /\ g[3] < y))
               /\ holes' = Append(holes, h)
         /\ UNCHANGED <<outer, order>>
\* 0 stands for the outer loop
Perms(n) == {s \in [1 .. n + 1 -> 0 .. n] : \A i, j \in 1 .. n + 1 : i # j => s[i] # s[j]}
List == /\ order = <<>> /\ Len(holes) = MaxHoles
        /\ order' \in Perms(Len(holes))
        /\ UNCHANGED <<outer, holes>>
Next == Place \/ List
Spec == Init /\ [][Next]_<<outer, holes, order>>

HoleAreas == \A i \in 1 .. Len(holes) : RSign(Area2(Poly(Hole(holes[i])))) < 0
\* the loops together wind once or not at all around any point
Quarters == {<<RFrac(2 * x + 1, 2), RFrac(4 * y + 1, 4)>> : x \in 0 .. 7, y \in 0 .. 7}
RECURSIVE HoleWinding(_, _)
HoleWinding(q, i) == IF i > Len(holes) THEN 0 ELSE Winding(Poly(Hole(holes[i])), q) + HoleWinding(q, i + 1)
Region == order # <<>> \/ \A q \in Quarters : Winding(Poly(Shape(outer)), q) + HoleWinding(q, 1) \in {0, 1}

RECURSIVE Flat(_, _)
Flat(s, i) == IF i > Len(s) THEN "" ELSE " " \o ToString(s[i][1]) \o " " \o ToString(s[i][2]) \o Flat(s, i + 1)
LoopText(k) == LET s == IF k = 0 THEN Shape(outer) ELSE Hole(holes[k]) IN ToString(Len(s)) \o Flat(s, 1)
RECURSIVE Text(_)
Text(i) == IF i > Len(order) THEN "" ELSE " " \o LoopText(order[i]) \o Text(i + 1)
Emit == order # <<>> => PrintT("@@SCN " \o ToString(Len(order)) \o Text(1))
=============================================================================
