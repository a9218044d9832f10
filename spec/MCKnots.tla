------------------------------ MODULE MCKnots -------------------------------
(***************************************************************************)
(* Design model of B-spline bases: grows every knot vector over 0 .. Max   *)
(* knot by knot, and checks on each, for every degree up to MaxP that fits *)
(* and for parameters on and half way between the values, the theory the   *)
(* conformance specifications rely on:                                     *)
(*   - the basis is non-negative, local, and sums to one on the domain;    *)
(*   - de Boor's triangular scheme gives the same point;                   *)
(*   - the derivative theorem gives the same derivative;                   *)
(*   - Boehm's knot insertion keeps the point.                             *)
(* Each knot vector is also printed as a scenario for the real library.    *)
(***************************************************************************)
EXTENDS Spline

CONSTANTS Max, MaxLen, MaxP, Emit

VARIABLES p, ks          \* degree; knots as integers

Init == p \in 0 .. MaxP /\ ks = <<0>>
Next == /\ Len(ks) < MaxLen
        /\ \E x \in ks[Len(ks)] .. Max :
              /\ Cardinality({i \in 1 .. Len(ks) : ks[i] = x}) <= p       \* multiplicity at most p + 1
              /\ ks' = Append(ks, x)
        /\ p' = p

N == Len(ks) - p - 1
Full == N >= p + 1 /\ ks[p + 1] < ks[N + 1]
T == TLCEval([i \in 1 .. Len(ks) |-> RInt(ks[i])])
Params == {RFrac(x, 2) : x \in 2 * ks[1] .. 2 * ks[Len(ks)]}
InDomain(u) == RLe(T[p + 1], u) /\ RLe(u, T[N + 1])
\* control points in general position
Ctrl == TLCEval([i \in 1 .. N |-> <<RInt(i * i - 3 * i), RInt((7 * i) % 5)>>])

\* inside the domain, away from its right end when that is not clamped
Inner(u) == RLe(T[p + 1], u) /\ (RLt(u, T[N + 1]) \/ (REq(u, T[N + 1]) /\ Mult(T, T[N + 1]) = p + 1 /\ N + p + 1 = Len(T) /\ REq(T[N + 1], Last(T))))

PartitionOfUnity ==
    Full => \A u \in Params :
        LET B == Basis(T, p, u)
        IN /\ \A i \in 1 .. N : RSign(B[i]) >= 0
           /\ Inner(u) => REq(RSum(B), RInt(1))
           /\ \A i \in 1 .. N : (RLt(u, T[i]) \/ RLt(T[i + p + 1], u)) => RSign(B[i]) = 0

\* de Boor: repeated interpolation of the p + 1 control points of the span
RECURSIVE DeBoor(_, _, _, _, _)
DeBoor(t, k, r, d, u) ==        \* d[j]: points k-p .. k, as positions 1 .. p+1
    IF r > p THEN d[p + 1]
    ELSE DeBoor(t, k, r + 1,
                TLCEval([j \in 1 .. p + 1 |->
                    IF j <= r THEN d[j]
                    ELSE LET i == k - p + j - 1
                             w == RSub(t[i + p + 1 - r], t[i])
                             a == IF RSign(w) = 0 THEN RInt(0) ELSE RDiv(RSub(u, t[i]), w)
                         IN VLerp(d[j - 1], d[j], a)]), u)
DeBoorAgrees ==
    Full => \A u \in {x \in Params : Inner(x)} :
        LET k == SpanOf(T, u)
        IN VSame(DeBoor(T, k, 1, [j \in 1 .. p + 1 |-> Ctrl[k - p + j - 1]], u), BSplineAt(T, p, Ctrl, u))

\* derivative theorem: control points p (P[i+1] - P[i]) / (t[i+p+1] - t[i+1]) on the inner knots
DerCtrl == TLCEval([i \in 1 .. N - 1 |->
    LET w == RSub(T[i + p + 1], T[i + 1])
    IN IF RSign(w) = 0 THEN <<RInt(0), RInt(0)>> ELSE VScale(RDiv(RInt(p), w), VSub(Ctrl[i + 1], Ctrl[i]))])
DerivativeTheorem ==
    (Full /\ p >= 1) => \A u \in {x \in Params : Inner(x)} :
        VSame(BSplineAt(SubSeq(T, 2, Len(T) - 1), p - 1, DerCtrl, u), BSplineDerAt(T, p, Ctrl, u, 1))

\* Boehm: insert u in span k
Boehm(u) ==
    LET k == SpanOf(T, u)
    IN TLCEval([i \in 1 .. N + 1 |->
        IF i <= k - p THEN Ctrl[i]
        ELSE IF i > k THEN Ctrl[i - 1]
        ELSE LET w == RSub(T[i + p], T[i])
                 a == IF RSign(w) = 0 THEN RInt(0) ELSE RDiv(RSub(u, T[i]), w)
                 lo == IF i > 1 THEN Ctrl[i - 1] ELSE <<RInt(0), RInt(0)>>
                 hi == IF i <= N THEN Ctrl[i] ELSE <<RInt(0), RInt(0)>>
             IN VLerp(lo, hi, a)])
InsertionKeepsCurve ==
    Full => \A x \in {y \in Params : RLt(T[p + 1], y) /\ RLt(y, T[N + 1]) /\ Mult(T, y) <= p} :
        \A u \in {y \in Params : RLe(T[p + 1], y) /\ RLt(y, T[N + 1])} :
            VSame(BSplineAt(KnotInsert(T, x), p, Boehm(x), u), BSplineAt(T, p, Ctrl, u))

RECURSIVE Ints(_, _)
Ints(s, i) == IF i > Len(s) THEN "" ELSE " " \o ToString(s[i]) \o Ints(s, i + 1)
EmitScenario == (Emit /\ Full) => PrintT("@@SCN " \o ToString(p) \o Ints(ks, 1))
=============================================================================
