-------------------------------- MODULE C20 --------------------------------
(***************************************************************************)
(* C20  SVG export draws every curve of the model.                         *)
(*                                                                         *)
(* The specification holds two machines.  The pen reads path data, one     *)
(* command after the other, and draws strokes; a move draws nothing, and   *)
(* strokes without extent do not count.  The follower knows what has to be *)
(* drawn, a list of goals: straight strokes, Bezier pieces, and curves     *)
(* that may be drawn by any number of chords.  It goes along the goals     *)
(* with every stroke and must have arrived at the end of the list with the *)
(* last one.  Its state is the set of goals it may be at, because rounding *)
(* to two decimals can swallow short strokes.                              *)
(*                                                                         *)
(* Model state: page size, the curves added, paths seen.                   *)
(***************************************************************************)
EXTENDS Curves, Conform

Round2 == RAdd(RFrac(1, 200), RFrac(1, 100000000))       \* two decimals
Tiny   == RFrac(101, 10000)

Flat2(p) == <<p[1], p[2]>>
Near2(p, q) == VNear(p, q, Round2)
Touch(p, q) == VNear(p, q, Tiny)

-----------------------------------------------------------------------------
(* The pen.                                                                *)
At2(a, i) == <<F64(a[i]), F64(a[i + 1])>>
Stroke(s, ps) ==
    LET n == Len(ps)
        moved == \E i \in 2 .. n : ~VSame(ps[i], ps[1])
    IN [s EXCEPT !.pen = ps[n], !.out = IF moved THEN Append(@, ps) ELSE @]

RECURSIVE Lines(_, _, _, _)
Lines(s, a, i, rel) == IF i > Len(a) THEN s
                       ELSE Lines(Stroke(s, <<s.pen, IF rel THEN VAdd(s.pen, At2(a, i)) ELSE At2(a, i)>>), a, i + 2, rel)
RECURSIVE Cubics(_, _, _, _)
Cubics(s, a, i, rel) ==
    IF i > Len(a) THEN s
    ELSE LET q(k) == IF rel THEN VAdd(s.pen, At2(a, i + k)) ELSE At2(a, i + k)
         IN Cubics(Stroke(s, <<s.pen, q(0), q(2), q(4)>>), a, i + 6, rel)
RECURSIVE Axes(_, _, _, _, _)
Axes(s, a, i, d, rel) ==
    IF i > Len(a) THEN s
    ELSE LET x == IF rel THEN RAdd(s.pen[d], F64(a[i])) ELSE F64(a[i])
         IN Axes(Stroke(s, <<s.pen, [s.pen EXCEPT ![d] = x]>>), a, i + 1, d, rel)

Bad(s) == [s EXCEPT !.bad = TRUE]
Carry(s, c) ==
    LET a == c[2]  n == Len(a) IN
    IF ~AllNum(a) \/ (s.pen = <<>> /\ c[1] \notin {"M", "m"}) THEN Bad(s)
    ELSE CASE c[1] \in {"M", "m"} /\ n >= 2 /\ n % 2 = 0 ->
                LET p == IF c[1] = "m" /\ s.pen # <<>> THEN VAdd(s.pen, At2(a, 1)) ELSE At2(a, 1)
                IN Lines([s EXCEPT !.pen = p, !.start = p], a, 3, c[1] = "m")
           [] c[1] \in {"L", "l"} /\ n >= 2 /\ n % 2 = 0 -> Lines(s, a, 1, c[1] = "l")
           [] c[1] \in {"C", "c"} /\ n >= 6 /\ n % 6 = 0 -> Cubics(s, a, 1, c[1] = "c")
           [] c[1] \in {"H", "h"} /\ n >= 1 -> Axes(s, a, 1, 1, c[1] = "h")
           [] c[1] \in {"V", "v"} /\ n >= 1 -> Axes(s, a, 1, 2, c[1] = "v")
           [] c[1] \in {"Z", "z"} /\ n = 0 -> Stroke(s, <<s.pen, s.start>>)
           [] OTHER -> Bad(s)
RECURSIVE Draw(_, _, _)
Draw(s, d, i) == IF i > Len(d) \/ s.bad THEN s ELSE Draw(Carry(s, d[i]), d, i + 1)
Blank == [pen |-> <<>>, start |-> <<>>, out |-> <<>>, bad |-> FALSE]

-----------------------------------------------------------------------------
(* The goals of a segment.                                                 *)
At(c, u) == Flat2(VRound(CurveAt(c, u), 60))

Line(c, a, b) == <<[k |-> "L", ps |-> <<At(c, a), At(c, b)>>]>>

\* vertices strictly between two fractions of the length
RECURSIVE Heads(_, _, _)
Heads(ls, i, acc) == IF i > Len(ls) THEN acc ELSE Heads(ls, i + 1, Append(acc, RAdd(acc[i], ls[i])))
Between(c, a, b) ==
    LET heads == TLCEval(Heads(c.ls, 1, <<RInt(0)>>))       \* lengths up to the vertices
        total == heads[Len(heads)]
        lo == TLCEval(RMul(a, total))  hi == TLCEval(RMul(b, total))
    IN SelectSeq([i \in 1 .. Len(c.vs) |-> [v |-> Flat2(c.vs[i]), in |-> RLt(lo, heads[i]) /\ RLt(heads[i], hi)]], LAMBDA x : x.in)
Turned(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
Chain(c, a, b) ==
    LET lo == RMin(a, b)  hi == RMax(a, b)
        inner == Between(c, lo, hi)
        up == <<At(c, lo)>> \o [i \in 1 .. Len(inner) |-> inner[i].v] \o <<At(c, hi)>>
        vs == TLCEval(IF RLe(a, b) THEN up ELSE Turned(up))
    IN [i \in 1 .. Len(vs) - 1 |-> [k |-> "L", ps |-> <<vs[i], vs[i + 1]>>]]

\* the Bezier points of a spline on [a, b], inside one span, from its Taylor polynomial at a
RECURSIVE TaylorPiece(_, _, _, _, _)
TaylorPiece(m, n, j, k, acc) ==
    IF k > j THEN acc
    ELSE TaylorPiece(m, n, j, k + 1, VAdd(acc, VScale(RFrac(Binom(j, k), Binom(n, k)), m[k + 1])))
Piece(c, a, b) ==
    LET B == BasisJet(c.t, c.p, a, c.p)
        h == RSub(b, a)
        m == TLCEval([k \in 1 .. c.p + 1 |->
                VRound(VScale(RPow(h, k - 1), Comb([i \in 1 .. Len(c.ps) |-> B[i][k]], c.ps)), 60)])
    IN TLCEval([j \in 1 .. c.p + 1 |-> Flat2(TaylorPiece(m, c.p, j - 1, 0, <<RInt(0), RInt(0), RInt(0)>>))])
Pieces(c, a, b) ==
    LET lo == RMin(a, b)  hi == RMax(a, b)
        ks == <<lo>> \o Distinct(SelectSeq(c.t, LAMBDA x : RLt(lo, x) /\ RLt(x, hi))) \o <<hi>>
        up == TLCEval([i \in 1 .. Len(ks) - 1 |-> Piece(c, ks[i], ks[i + 1])])
    IN IF RLe(a, b) THEN [i \in 1 .. Len(up) |-> [k |-> "C", ps |-> up[i]]]
       ELSE [i \in 1 .. Len(up) |-> [k |-> "C", ps |-> Turned(up[Len(up) + 1 - i])]]

Goals(g) ==
    LET c == CurveOf(g.c)  a == F64(g.a)  b == F64(g.b)
    IN CASE g.kind = 0 -> Line(c, a, b)
         [] g.kind = 1 -> Chain(c, a, b)
         [] g.kind = 2 -> Pieces(c, a, b)
         [] OTHER -> <<[k |-> "S", ps |-> <<At(c, a), At(c, b)>>, c |-> c, a |-> a, b |-> b, tol |-> F64(g.tol)]>>
RECURSIVE AllGoals(_, _)
AllGoals(segs, i) == IF i > Len(segs) THEN <<>> ELSE Goals(segs[i]) \o AllGoals(segs, i + 1)

-----------------------------------------------------------------------------
(* Chords of a sampled curve.                                              *)
\* a circle in a level plane: which way the angle grows, seen from above
Sense(g) == LET s == RSign(g.c.axis[3]) IN IF RLe(g.a, g.b) THEN s ELSE -s
CircleChord(g, p, q) ==
    LET o == Flat2(g.c.o)
        onit(x) == Near(VLen(VSub(x, o), 60), g.c.r, Tiny)
        d2 == VDist2(p, q)
        sag == RAdd(RMul(RFrac(3, 2), g.tol), RFrac(2, 100))
    IN /\ onit(p) /\ onit(q)
       /\ RSign(Perp(VSub(p, o), VSub(q, o))) = Sense(g)
       /\ RLe(d2, RMul(RMul(RInt(8), g.c.r), sag))

\* a graph: x grows evenly with the parameter
Param(g, x) == LET x0 == g.ps[1][1]  x1 == g.ps[2][1]
                   k == RDiv(RSub(x, x0), RSub(x1, x0))
               IN VLerp(<<g.a>>, <<g.b>>, RMax(RInt(0), RMin(RInt(1), k)))[1]
HeightAt(g, x) == At(g.c, RRound(Param(g, x), 60))[2]
OnGraph(g, p) ==
    LET y == HeightAt(g, p[1])
        y0 == HeightAt(g, RSub(p[1], Round2))
        y1 == HeightAt(g, RAdd(p[1], Round2))
        lo == RMin(y, RMin(y0, y1))
        hi == RMax(y, RMax(y0, y1))
        m == RAdd(Round2, RFrac(1, 1000))
    IN RLe(RSub(lo, m), p[2]) /\ RLe(p[2], RAdd(hi, m))
GraphChord(g, p, q) ==
    LET dir == RSign(RSub(g.ps[2][1], g.ps[1][1]))
        mid == VLerp(p, q, RFrac(1, 2))
    IN /\ RSign(RSub(q[1], p[1])) = dir
       /\ OnGraph(g, p) /\ OnGraph(g, q)
       \* a chord is accepted by a probe near its middle
       /\ LET x0 == mid[1]
              y == HeightAt(g, x0)
              steep == RDiv(RAbs(RSub(q[2], p[2])), RAbs(RSub(q[1], p[1])))
          IN Near(mid[2], y, RMul(RAdd(RInt(1), steep), RAdd(RMul(RInt(3), g.tol), RFrac(3, 100))))
Chord(g, p, q) == IF g.c.kind = "circle" THEN CircleChord(g, p, q) ELSE GraphChord(g, p, q)

\* nothing to see of a goal
Short(g) == CASE g.k = "S" -> Touch(g.ps[1], g.ps[2]) /\ (g.c.kind = "circle" => RLe(RMul(g.c.r, RAbs(RSub(g.a, g.b))), Tiny))
              [] OTHER -> \A i \in 2 .. Len(g.ps) : Touch(g.ps[i], g.ps[1])

-----------------------------------------------------------------------------
(* The follower: positions <<j, in>>: j goals done, in = TRUE while inside *)
(* the chords of goal j + 1.                                               *)
RECURSIVE Skip(_, _)
Skip(goals, S) ==
    LET more == {<<x[1] + 1, FALSE>> : x \in {y \in S : ~y[2] /\ y[1] < Len(goals) /\ Short(goals[y[1] + 1])}} \ S
    IN IF more = {} THEN S ELSE Skip(goals, S \cup more)
After(goals, x, st) ==
    LET g == goals[x[1] + 1]
        n == Len(st)
        stay == IF \A i \in 2 .. n : Touch(st[i], st[1]) THEN {x} ELSE {}
        go == IF x[1] = Len(goals) THEN {}
              ELSE IF g.k = "S"
              THEN IF n = 2 /\ (x[2] \/ Near2(st[1], g.ps[1])) /\ Chord(g, st[1], st[2])
                   THEN {<<x[1], TRUE>>} \cup (IF Near2(st[2], g.ps[2]) THEN {<<x[1] + 1, FALSE>>} ELSE {})
                   ELSE {}
              ELSE IF n = Len(g.ps) /\ \A i \in 1 .. n : Near2(st[i], g.ps[i]) THEN {<<x[1] + 1, FALSE>>} ELSE {}
    IN stay \cup go
RECURSIVE Follow(_, _, _, _)
Follow(goals, S, strokes, i) ==
    LET T == TLCEval(Skip(goals, S))
    IN IF T = {} THEN "a stroke is not part of the curve, in its order"
       ELSE IF i > Len(strokes) THEN IF <<Len(goals), FALSE>> \in T THEN "" ELSE "a part of the curve is not drawn"
       ELSE Follow(goals, UNION {After(goals, x, strokes[i]) : x \in T}, strokes, i + 1)

PathFault(segs, d) ==
    LET s == Draw(Blank, d, 1)
    IN IF s.bad THEN "the path data cannot be read"
       ELSE Follow(TLCEval(AllGoals(segs, 1)), {<<0, FALSE>>}, s.out, 1)

-----------------------------------------------------------------------------
(* Transformations, innermost last: affine maps <<a, b, c, d, e, f>>.      *)
Ident == <<RInt(1), RInt(0), RInt(0), RInt(1), RInt(0), RInt(0)>>
Times(m, n) == <<RAdd(RMul(m[1], n[1]), RMul(m[3], n[2])), RAdd(RMul(m[2], n[1]), RMul(m[4], n[2])),
                 RAdd(RMul(m[1], n[3]), RMul(m[3], n[4])), RAdd(RMul(m[2], n[3]), RMul(m[4], n[4])),
                 RAdd(RAdd(RMul(m[1], n[5]), RMul(m[3], n[6])), m[5]), RAdd(RAdd(RMul(m[2], n[5]), RMul(m[4], n[6])), m[6])>>
Affinity(t) ==
    LET a == FV(t[2])  n == Len(a)
    IN CASE t[1] = "matrix" /\ n = 6 -> a
         [] t[1] = "translate" /\ n \in {1, 2} -> <<RInt(1), RInt(0), RInt(0), RInt(1), a[1], IF n = 2 THEN a[2] ELSE RInt(0)>>
         [] t[1] = "scale" /\ n \in {1, 2} -> <<a[1], RInt(0), RInt(0), IF n = 2 THEN a[2] ELSE a[1], RInt(0), RInt(0)>>
         [] OTHER -> <<RInt(0), RInt(0), RInt(0), RInt(0), RInt(0), RInt(0)>>
RECURSIVE Compose(_, _)
Compose(ts, i) == IF i > Len(ts) THEN Ident ELSE Times(Affinity(ts[i]), Compose(ts, i + 1))

JudgeC20(e, s) ==
    CASE e.op = "model" -> Ok([w |-> F64(e.w), h |-> F64(e.h), curves |-> <<>>, seen |-> 0])
      [] e.op = "curve" -> Ok([s EXCEPT !.curves = Append(@, e.segs)])
      [] e.op = "save"  -> IF e.err # "" THEN No("saving failed: " \o e.err)
                           ELSE Expect(e.paths = Len(s.curves), s, "not one path per composite curve")
      [] e.op = "page"  ->
           IF ~Has(e, "w") THEN No("the file is not an SVG document")
           ELSE IF ~IsNum(e.w) \/ ~IsNum(e.h) \/ ~REq(F64(e.w), s.w) \/ ~REq(F64(e.h), s.h)
           THEN No("the page does not have the requested size in millimetres")
           ELSE Expect(Len(e.box) = 4 /\ AllNum(e.box) /\ VSame(FV(e.box), <<RInt(0), RInt(0), s.w, s.h>>), s,
                       "one unit of the drawing is not one millimetre of the page")
      [] e.op = "path"  ->
           LET k == s.seen + 1
               w == IF \E i \in 1 .. Len(e.tr) : ~AllNum(e.tr[i][2]) THEN "a transformation is not a number"
                    ELSE IF ~VSame(Compose(e.tr, 1), <<RInt(1), RInt(0), RInt(0), RInt(-1), RInt(0), s.h>>)
                    THEN "the y axis is not flipped about the page height"
                    ELSE PathFault(s.curves[k], e.d)
           IN Expect(w = "", [s EXCEPT !.seen = k], w)
=============================================================================
