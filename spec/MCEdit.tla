------------------------------- MODULE MCEdit -------------------------------
(***************************************************************************)
(* Design model of curve editing (C04).  The representation (knots and     *)
(* control points) is changed step by step as the library's algorithm      *)
(* changes it: AddKnot is one insertion, Clamp and Split are the insertion *)
(* loops followed by cutting the sequences.  The invariants say that in    *)
(* every reachable state the representation still describes the curve the  *)
(* history started with, that the knots stay sorted, and that the counts   *)
(* fit.  Complete histories are printed as scenarios for the library.      *)
(***************************************************************************)
EXTENDS Spline

CONSTANTS Max, MaxLen, MaxP, MaxOps, Emit

VARIABLES phase,        \* "grow" the knot vector, then "edit"
          p, ks,        \* degree, initial integer knots
          rep,          \* current representation [t, ps]
          ops           \* operations so far: <<code, twice the parameter>>
vars == <<phase, p, ks, rep, ops>>

N == Len(ks) - p - 1
T0 == TLCEval([i \in 1 .. Len(ks) |-> RInt(ks[i])])
C0 == TLCEval([i \in 1 .. N |-> <<RInt(i * i - 3 * i), RInt((7 * i) % 5)>>])
Nil == [t |-> <<>>, ps |-> <<>>]

Init == phase = "grow" /\ p \in 1 .. MaxP /\ ks = <<0>> /\ rep = Nil /\ ops = <<>>

Grow == /\ phase = "grow"
        /\ Len(ks) < MaxLen
        /\ \E x \in ks[Len(ks)] .. Max :
              /\ Cardinality({i \in 1 .. Len(ks) : ks[i] = x}) <= p
              /\ ks' = Append(ks, x)
        /\ UNCHANGED <<phase, p, rep, ops>>

Start == /\ phase = "grow"
         /\ N >= p + 1
         /\ ks[p + 1] < ks[N + 1]
         /\ phase' = "edit"
         /\ rep' = [t |-> T0, ps |-> C0]
         /\ UNCHANGED <<p, ks, ops>>

-----------------------------------------------------------------------------
(* The algorithm.  Positions are one-based here.                           *)
Origin == <<RInt(0), RInt(0)>>
Inv(d) == IF RSign(d) = 0 THEN RInt(0) ELSE RDiv(RInt(1), d)

AddKnot(r, u) ==
    LET k  == Cardinality({i \in 1 .. Len(r.t) : RLe(r.t[i], u)})  \* the new knot comes after k knots
        t  == InsertAt(r.t, k + 1, u)
        n  == Len(r.ps)
        lo == IF k > p THEN k - p + 1 ELSE 1             \* first point to change
        hi == IF k > n THEN n + 1 ELSE k                 \* last one
        q  == IF k > n THEN Append(r.ps, Origin) ELSE InsertAt(r.ps, k, r.ps[k])
        new(i) == LET a == RMul(RSub(u, t[i]), Inv(RSub(t[i + p + 1], t[i])))
                      before == IF i > 1 THEN q[i - 1] ELSE Origin
                  IN VAdd(VScale(RSub(RInt(1), a), before), VScale(a, q[i]))
    IN IF k = 0 THEN [t |-> t, ps |-> <<Origin>> \o r.ps]
       ELSE [t |-> t, ps |-> TLCEval([i \in 1 .. n + 1 |-> IF lo <= i /\ i <= hi THEN new(i) ELSE q[i]])]

RECURSIVE AddTimes(_, _, _)
AddTimes(r, u, m) == IF m <= 0 THEN r ELSE AddTimes(AddKnot(r, u), u, m - 1)

ClampRep(r) ==
    LET a == AddTimes(r, First(r.t), p + 1 - Mult(r.t, First(r.t)))
    IN AddTimes(a, Last(a.t), p + 1 - Mult(a.t, Last(a.t)))

SplitRep(r, u) ==
    LET s == AddTimes(r, u, p + 1 - Mult(r.t, u))
        k == SpanOf(s.t, u)              \* the last knot equal to u
    IN [a |-> [t |-> SubSeq(s.t, 1, k), ps |-> SubSeq(s.ps, 1, k - p - 1)],
        b |-> [t |-> SubSeq(s.t, k - p, Len(s.t)), ps |-> SubSeq(s.ps, k - p, Len(s.ps))]]

-----------------------------------------------------------------------------
Halves == {RFrac(x, 2) : x \in 2 * ks[1] .. 2 * ks[Len(ks)]}
Twice(u) == RFloor(RMul(RInt(2), u))
Interior(u) == RLt(First(rep.t), u) /\ RLt(u, Last(rep.t))
InRange(u) == RLe(First(rep.t), u) /\ RLe(u, Last(rep.t))

Insert == \E u \in Halves :
              /\ InRange(u)
              /\ Mult(rep.t, u) <= p
              /\ rep' = AddKnot(rep, u)
              /\ ops' = Append(ops, <<0, Twice(u)>>)
Clamp  == /\ rep' = ClampRep(rep)
          /\ ops' = Append(ops, <<1, 0>>)
Split  == \E u \in Halves :
              /\ Interior(u)
              /\ \/ rep' = SplitRep(rep, u).a /\ ops' = Append(ops, <<2, Twice(u)>>)
                 \/ rep' = SplitRep(rep, u).b /\ ops' = Append(ops, <<3, Twice(u)>>)

Edit == /\ phase = "edit"
        /\ Len(ops) < MaxOps
        /\ Insert \/ Clamp \/ Split
        /\ UNCHANGED <<phase, p, ks>>

Next == Grow \/ Start \/ Edit
-----------------------------------------------------------------------------
CountsFit   == phase = "edit" => Len(rep.t) = Len(rep.ps) + p + 1
KnotsSorted == phase = "edit" => Sorted(rep.t)
CurveKept ==
    phase = "edit" =>
        \A i \in 1 .. Len(rep.t) - 1 :
            RLt(rep.t[i], rep.t[i + 1]) =>
                \A j \in 1 .. p + 1 :
                    LET u == VLerp(<<rep.t[i]>>, <<rep.t[i + 1]>>, RFrac(2 * j - 1, 2 * p + 2))[1]
                    IN VSame(BSplineAt(rep.t, p, rep.ps, u), BSplineAt(T0, p, C0, u))

RECURSIVE Ints(_, _)
Ints(s, i) == IF i > Len(s) THEN "" ELSE " " \o ToString(s[i]) \o Ints(s, i + 1)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
EmitScenario == (Emit /\ phase = "edit" /\ Len(ops) = MaxOps) =>
    PrintT("@@SCN " \o ToString(p) \o " " \o ToString(Len(ks)) \o Ints(ks, 1) \o Ints(Flat(ops), 1))
=============================================================================
