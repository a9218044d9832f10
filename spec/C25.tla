-------------------------------- MODULE C25 --------------------------------
(***************************************************************************)
(* C25  A solid read from a STEP file is saved as a closed surface.        *)
(* Model state: the solid the file describes: its vertices, the circles of *)
(* its round edges, and the volume within its walks, which StepLoop.tla    *)
(* derives from the flags of the file.                                     *)
(* Events: solid, then saved (vertices and triangles of an OBJ or, in      *)
(* single precision, of an STL file).                                      *)
(***************************************************************************)
EXTENDS Solid, Curves, Conform

RECURSIVE Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i + 1)

\* edge k, passed from its start or (-k first) from its end
Walk(b) == WalkOf([i \in 1 .. Len(b.edges) |-> <<b.edges[i].e, -b.edges[i].e>>], [i \in 1 .. Len(b.edges) |-> b.edges[i].o], b.flag)
From(e, w) == IF w[1] > 0 THEN e.edges[w[1]].s ELSE e.edges[-w[1]].e
To(e, w) == IF w[1] > 0 THEN e.edges[w[1]].e ELSE e.edges[-w[1]].s

AbsOf(k) == IF k > 0 THEN k ELSE -k
Backwards(ps) == [i \in 1 .. Len(ps) |-> ps[Len(ps) + 1 - i]]
Pieces == 32
\* the points of a piece of a walk, without the last one
PointsOf(e, vs, circles, w) ==
    LET k == IF w[1] > 0 THEN w[1] ELSE -w[1]
        d == e.edges[k]
        t0 == IF w[1] > 0 THEN F64(d.t0) ELSE F64(d.t1)
        t1 == IF w[1] > 0 THEN F64(d.t1) ELSE F64(d.t0)
    IN IF d.c = 0 THEN <<vs[From(e, w)]>>
       ELSE TLCEval([i \in 1 .. Pieces |-> VRound(CurveAt(circles[d.c], RAdd(t0, RMul(RSub(t1, t0), RFrac(i - 1, Pieces)))), 60)])

Det(a, b, c) == VDot(a, VCross(b, c))
RECURSIVE FanVolume(_, _)       \* six times the volume under a flat loop, seen from the origin
FanVolume(ps, i) == IF i >= Len(ps) THEN RInt(0) ELSE RAdd(Det(ps[1], ps[i], ps[i + 1]), FanVolume(ps, i + 1))

SolidOf(e) ==
    LET vs == FVs(e.vs)
        o == vs[1]
        at == TLCEval([i \in 1 .. Len(vs) |-> VSub(vs[i], o)])
        circles == TLCEval([k \in 1 .. Len(e.circles) |-> CurveOf(e.circles[k])])
        round == Len(circles) > 0
        n == FV(e.axis)
        walks == TLCEval([f \in 1 .. Len(e.faces) |-> TLCEval([b \in 1 .. Len(e.faces[f].bounds) |-> TLCEval(Walk(e.faces[f].bounds[b]))])])
        every == TLCEval(Flat(Flat(walks, 1), 1))
        local(ps) == TLCEval([i \in 1 .. Len(ps) |-> VSub(ps[i], o)])
        ring(w) == local(Flat([i \in 1 .. Len(w) |-> PointsOf(e, vs, circles, w[i])], 1))
        flat(f) == RSum([b \in 1 .. Len(walks[f]) |-> FanVolume(ring(walks[f][b]), 2)])
        \* between the arcs below and above
        arcs(f) == TLCEval(SelectSeq(Flat(walks[f], 1), LAMBDA w : e.edges[AbsOf(w[1])].c # 0))
        strip(ps, qs) == RSum([i \in 1 .. Pieces |-> RAdd(Det(ps[i], ps[i + 1], qs[i + 1]), Det(ps[i], qs[i + 1], qs[i]))])
        wall(f) == LET as == arcs(f)
                       whole(w) == local(PointsOf(e, vs, circles, w) \o <<vs[To(e, w)]>>)
                   IN strip(whole(as[1]), Backwards(whole(as[2])))
        heights == TLCEval([i \in 1 .. Len(at) |-> VDot(n, at[i])])
        curved == RSum([k \in 1 .. Len(e.edges) |-> IF e.edges[k].c = 0 THEN RInt(0)
                        ELSE RMul(RMul(circles[e.edges[k].c].r, RAdd(RFrac(3, 100), RMul(RFrac(1, 100), circles[e.edges[k].c].r))), RAbs(RSub(F64(e.edges[k].t1), F64(e.edges[k].t0))))])
    IN TLCEval([vs |-> vs \o FVs(e.marks), o |-> o, circles |-> circles, round |-> round,
         size |-> RAdd(RInt(1), PMax(vs)),
         \* every edge is passed once from each end, and each walk is a chain
         closed |-> /\ Len(every) = 2 * Len(e.edges)
                    /\ Range([i \in 1 .. Len(every) |-> every[i][1]]) = {k \in -Len(e.edges) .. Len(e.edges) : k # 0}
                    /\ \A f \in 1 .. Len(walks) : \A b \in 1 .. Len(walks[f]) :
                         LET w == walks[f][b] IN \A i \in 1 .. Len(w) : To(e, w[i]) = From(e, w[(i % Len(w)) + 1]),
         six |-> RSum([f \in 1 .. Len(walks) |-> IF e.faces[f].plane THEN flat(f) ELSE wall(f)]),
         loose |-> RMul(RMul(RInt(6), curved), VMax(heights))])

-----------------------------------------------------------------------------
(* Labels: <<i>> for a vertex of the solid, recorded coordinates otherwise *)
Label(s, tol, raw, v) ==
    LET at == {i \in 1 .. Len(s.vs) : VNear(v, s.vs[i], tol)}
    IN IF at = {} THEN raw ELSE <<CHOOSE i \in at : TRUE>>

\* a straight edge between vertices, cut where there are vertices on it
CutEdge(s, tol, d) ==
    IF Len(d[1]) # 1 \/ Len(d[2]) # 1 THEN <<d>>
    ELSE LET a == s.vs[d[1][1]]  b == s.vs[d[2][1]]
             ab == VSub(b, a)
             l2 == VNorm2(ab)
             k(i) == RDiv(VDot(ab, VSub(s.vs[i], a)), l2)
             on == SelectSeq([i \in 1 .. Len(s.vs) |-> i], LAMBDA i : i # d[1][1] /\ i # d[2][1] /\ RLt(RInt(0), k(i)) /\ RLt(k(i), RInt(1))
                                                           /\ VNear(s.vs[i], VAdd(a, VScale(k(i), ab)), tol))
             stops == <<d[1][1]>> \o SortSeq(on, LAMBDA i, j : RLt(k(i), k(j))) \o <<d[2][1]>>
         IN [i \in 1 .. Len(stops) - 1 |-> <<<<stops[i]>>, <<stops[i + 1]>>>>]

RECURSIVE Some(_)
Some(set) == IF set = {} THEN <<>> ELSE LET x == CHOOSE x \in set : TRUE IN <<x>> \o Some(set \ {x})
\* a straight edge between recorded points, cut where there are others of them on it
CutAt(place, d, tol) ==
    LET a == place[d[1]]  b == place[d[2]]
        ab == VSub(b, a)
        l2 == VNorm2(ab)
        k(x) == RDiv(VDot(ab, VSub(place[x], a)), l2)
        on == {x \in DOMAIN place \ {d[1], d[2]} : LET t == k(x) IN /\ RLt(RInt(0), t) /\ RLt(t, RInt(1))
                                                                   /\ VNear(place[x], VAdd(a, VScale(t, ab)), tol)}
        stops == <<d[1]>> \o SortSeq(Some(on), LAMBDA x, y : RLt(k(x), k(y))) \o <<d[2]>>
    IN IF RSign(l2) = 0 THEN <<>> ELSE [i \in 1 .. Len(stops) - 1 |-> <<stops[i], stops[i + 1]>>]

\* how many times each edge is left over matters when edges are cut
Repeated(es, left) == SelectSeq(Proper(es), LAMBDA e : e \in left \/ Swap(e) \in left)

OnCircle(c, p, tol) ==
    LET v == VSub(p, c.o)
        z == VDot(v, c.axis)
    IN /\ RLe(RAbs(z), tol)
       /\ Near(VLen(VSub(v, VScale(z, c.axis)), SqrtBits), c.r, tol)

(* What is left over may only be where two walls divided the same arc      *)
(* differently: short chords that go round each circle as much one way as  *)
(* the other.                                                              *)
ChordsFault(s, tol, place, left) ==
    LET es == TLCEval(Some(left))
        a(i) == place[es[i][1]]
        b(i) == place[es[i][2]]
        short(c, i) == RLe(VDist2(a(i), b(i)), RMul(RFrac(1, 10), c.r))
        on == TLCEval([i \in 1 .. Len(es) |->
                LET ks == {k \in 1 .. Len(s.circles) : short(s.circles[k], i) /\ OnCircle(s.circles[k], a(i), tol) /\ OnCircle(s.circles[k], b(i), tol)}
                IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A j \in ks : k <= j])
        sines(k) == [i \in 1 .. Len(es) |-> IF on[i] # k THEN RInt(0)
                     ELSE LET c == s.circles[k] IN RDiv(VDot(c.axis, VCross(VSub(a(i), c.o), VSub(b(i), c.o))), RMul(c.r, c.r))]
        uneven(k) == LET x == TLCEval(sines(k))
                     IN RLt(RAdd(RFrac(1, 1000000), RMul(RDiv(RFrac(3, 100), s.circles[k].r), RSum([i \in 1 .. Len(x) |-> RAbs(x[i])]))), RAbs(RSum(x)))
    IN IF \E i \in 1 .. Len(on) : on[i] = 0 THEN "the surface has an open edge"
       ELSE IF \E k \in Range(on) : uneven(k) THEN "the surface is open along an arc"
       ELSE ""

SavedFault(s, e) ==
    IF ~AllVec(e.vs, 3) THEN "a vertex is not finite"
    ELSE LET tol == RMul(IF e.single THEN RFrac(1, 1000000) ELSE RFrac(1, 100000000), s.size)
             vs == FVs(e.vs)
             names == TLCEval([i \in 1 .. Len(vs) |-> Label(s, tol, e.vs[i], vs[i])])
             ts == TLCEval([k \in 1 .. Len(e.ts) |-> <<e.ts[k][1] + 1, e.ts[k][2] + 1, e.ts[k][3] + 1>>])
             es == TLCEval(Chain([k \in 1 .. Len(ts) |-> <<names[ts[k][1]], names[ts[k][2]], names[ts[k][3]]>>], 1))
             left1 == LeftOver(es)
             uncut == TLCEval(Repeated(es, left1))
             cut == TLCEval(Flat([i \in 1 .. Len(uncut) |-> CutEdge(s, tol, uncut[i])], 1))
             left2 == IF left1 = {} THEN {} ELSE LeftOver(cut)
             ends == UNION {{d[1], d[2]} : d \in left2}
             place == TLCEval([x \in ends |-> IF Len(x) = 1 THEN s.vs[x[1]] ELSE FV(x)])
             uncut2 == TLCEval(Repeated(cut, left2))
             \* two points of an arc may be in line with an edge
             left == IF left2 = {} THEN {} ELSE LeftOver(Flat([i \in 1 .. Len(uncut2) |-> CutAt(place, uncut2[i], tol)], 1))
             open == IF left = {} THEN "" ELSE IF ~s.round THEN "the surface has an open edge" ELSE ChordsFault(s, tol, place, left)
             local == TLCEval([i \in 1 .. Len(vs) |-> VSub(vs[i], s.o)])
             six == RSum([k \in 1 .. Len(ts) |-> Det(local[ts[k][1]], local[ts[k][2]], local[ts[k][3]])])
             slack == RMul(RInt(1000), RMul(tol, RMul(s.size, s.size)))
         IN IF Len(ts) = 0 THEN "there are no triangles"
            ELSE IF open # "" THEN open
            ELSE IF ~Near(six, s.six, RAdd(slack, s.loose)) THEN "the surface does not enclose the volume of the solid"
            ELSE ""

JudgeC25(e, s) ==
    CASE e.op = "solid" -> LET m == SolidOf(e) IN Expect(m.closed, m, "the file does not describe a closed solid")
      [] e.op = "saved" -> LET w == SavedFault(s, e) IN Expect(w = "", s, w)
=============================================================================
