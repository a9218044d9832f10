------------------------------- MODULE Spline -------------------------------
(***************************************************************************)
(* Bezier and B-spline curves and surfaces, as mathematics.                *)
(*                                                                         *)
(* A knot vector is a non-decreasing sequence t[1..m] of rationals; a      *)
(* curve of degree p has n = m - p - 1 control points (of any dimension:   *)
(* weighted points are homogeneous 4-vectors).  Basis functions come       *)
(* straight from the Cox-de Boor recursion (0/0 = 0).  Every basis         *)
(* function is computed as its Taylor polynomial at u, i.e. a sequence of  *)
(* coefficients of 1, h, h^2, ...; so values and derivatives of all orders *)
(* come from the definition itself and not from derivative formulas.       *)
(***************************************************************************)
EXTENDS Vec

-----------------------------------------------------------------------------
(* Polynomials in h, truncated after order K: sequences of length K + 1.   *)
PAdd(a, b)    == TLCEval([i \in 1 .. Len(a) |-> RAdd(a[i], b[i])])
\* (c0 + c1 h) * a
PMulLin(c0, c1, a) ==
    TLCEval([i \in 1 .. Len(a) |->
        IF i = 1 THEN RMul(c0, a[1]) ELSE RAdd(RMul(c0, a[i]), RMul(c1, a[i - 1]))])
PConst(c, K)  == [i \in 1 .. K + 1 |-> IF i = 1 THEN c ELSE RInt(0)]
PIsZero(a)    == \A i \in 1 .. Len(a) : RSign(a[i]) = 0

RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)

-----------------------------------------------------------------------------
(* Knots.                                                                  *)
Sorted(t)     == \A i \in 1 .. Len(t) - 1 : RLe(t[i], t[i + 1])
First(t)      == t[1]
Last(t)       == t[Len(t)]
Mult(t, x)    == Cardinality({i \in 1 .. Len(t) : REq(t[i], x)})

MaxOf(S)      == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S)      == CHOOSE x \in S : \A y \in S : x <= y

\* The span a parameter belongs to: t[k] <= u < t[k+1]; the last non-empty
\* span for u >= last knot, the first non-empty one below the first knot.
SpanOf(t, u) ==
    LET m == Len(t)
        nonEmpty == {i \in 1 .. m - 1 : RLt(t[i], t[i + 1])}
    IN IF RLe(t[m], u) THEN MaxOf(nonEmpty)
       ELSE IF RLt(u, t[1]) THEN MinOf(nonEmpty)
       ELSE MaxOf({i \in nonEmpty : RLe(t[i], u)})

\* sorted insertion
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
KnotInsert(t, x) ==
    LET k == Cardinality({i \in 1 .. Len(t) : RLe(t[i], x)}) IN InsertAt(t, k + 1, x)

\* the distinct values, in order
RECURSIVE Distinct(_)
Distinct(t) == IF Len(t) <= 1 THEN t
               ELSE LET r == Distinct(Tail(t))
                    IN IF REq(t[1], r[1]) THEN r ELSE <<t[1]>> \o r

-----------------------------------------------------------------------------
(* Cox-de Boor, on Taylor polynomials at u truncated after order K, taken  *)
(* on the polynomial piece of span k.                                      *)
BasisZero(t, k, K) ==
    TLCEval([i \in 1 .. Len(t) - 1 |-> PConst(IF i = k THEN RInt(1) ELSE RInt(0), K)])

BasisRaise(t, r, B, u, K) ==
    TLCEval([i \in 1 .. Len(t) - 1 - r |->
        LET left  == IF PIsZero(B[i]) \/ REq(t[i + r], t[i]) THEN PConst(RInt(0), K)
                     ELSE LET d == RSub(t[i + r], t[i])
                          IN PMulLin(RDiv(RSub(u, t[i]), d), RDiv(RInt(1), d), B[i])
            right == IF PIsZero(B[i + 1]) \/ REq(t[i + r + 1], t[i + 1]) THEN PConst(RInt(0), K)
                     ELSE LET d == RSub(t[i + r + 1], t[i + 1])
                          IN PMulLin(RDiv(RSub(t[i + r + 1], u), d), RDiv(RInt(-1), d), B[i + 1])
        IN PAdd(left, right)])

RECURSIVE BasisUpTo(_, _, _, _, _, _)
BasisUpTo(t, p, r, B, u, K) ==
    IF r > p THEN B ELSE BasisUpTo(t, p, r + 1, BasisRaise(t, r, B, u, K), u, K)

\* Taylor polynomials of all basis functions of degree p at u
BasisJet(t, p, u, K) == BasisUpTo(t, p, 1, BasisZero(t, SpanOf(t, u), K), u, K)
\* their values
Basis(t, p, u) == LET B == BasisJet(t, p, u, 0) IN TLCEval([i \in 1 .. Len(B) |-> B[i][1]])
\* their k-th derivatives
BasisDer(t, p, u, k) ==
    LET B == BasisJet(t, p, u, k)
    IN TLCEval([i \in 1 .. Len(B) |-> RMul(RInt(Fact(k)), B[i][k + 1])])

-----------------------------------------------------------------------------
(* Bernstein polynomials of degree n: coefficients around u.               *)
RECURSIVE RPow(_, _)
RPow(a, n) == IF n = 0 THEN RInt(1) ELSE RMul(a, RPow(a, n - 1))
\* the binomial coefficients of n, from the first to the k-th
RECURSIVE RBinoms(_, _)
RBinoms(n, k) ==
    IF k = 0 THEN <<RInt(1)>>
    ELSE LET s == RBinoms(n, k - 1) IN Append(s, RMul(Last(s), RFrac(n - k + 1, k)))
Bernstein(n, u) ==
    LET b == TLCEval(RBinoms(n, n))
    IN TLCEval([i \in 1 .. n + 1 |->
        RMul(b[i], RMul(RPow(u, i - 1), RPow(RSub(RInt(1), u), n - i + 1)))])

-----------------------------------------------------------------------------
(* Linear combinations and points.                                         *)
RECURSIVE CombFrom(_, _, _)
CombFrom(c, ps, i) ==
    IF i > Len(ps) THEN [d \in 1 .. Len(ps[1]) |-> RInt(0)]
    ELSE LET rest == CombFrom(c, ps, i + 1)
         IN IF RSign(c[i]) = 0 THEN rest ELSE VAdd(VScale(c[i], ps[i]), rest)
Comb(c, ps) == CombFrom(c, ps, 1)

BSplineAt(t, p, ps, u)     == Comb(Basis(t, p, u), ps)
BSplineDerAt(t, p, ps, u, k) == Comb(BasisDer(t, p, u, k), ps)
BezierAt(ps, u)            == Comb(Bernstein(Len(ps) - 1, u), ps)
\* a Bezier curve is the B-spline curve on the knots 0..0 1..1
BezierKnots(n)             == [i \in 1 .. 2 * n + 2 |-> IF i <= n + 1 THEN RInt(0) ELSE RInt(1)]

\* tensor product: rows of the net belong to u, columns to v
NetComb(cu, cv, net) == Comb(cu, TLCEval([i \in 1 .. Len(net) |-> Comb(cv, net[i])]))

\* homogeneous to affine
Project(h) == LET d == Len(h) - 1 IN TLCEval([i \in 1 .. d |-> RDiv(h[i], h[d + 1])])

Clamped(t, p) == Mult(t, First(t)) >= p + 1 /\ Mult(t, Last(t)) >= p + 1
=============================================================================
