-------------------------------- MODULE Trig --------------------------------
(***************************************************************************)
(* Sine, cosine and pi as rationals, with error below 2^-64 for arguments  *)
(* of a few turns; rotations by Rodrigues' formula.                        *)
(***************************************************************************)
EXTENDS Vec

Prec == 100

\* atan(1/n) = sum (-1)^k / ((2k+1) n^(2k+1))
RECURSIVE AtanInv(_, _, _, _)
AtanInv(n, k, term, terms) ==
    IF k = terms THEN RInt(0)
    ELSE RAdd(RDiv(IF k % 2 = 0 THEN term ELSE RNeg(term), RInt(2 * k + 1)),
              AtanInv(n, k + 1, RRound(RDiv(term, RInt(n * n)), Prec + 20), terms))
\* Machin: pi = 16 atan(1/5) - 4 atan(1/239)
Pi == RRound(RSub(RMul(RInt(16), AtanInv(5, 0, RFrac(1, 5), 30)),
                  RMul(RInt(4), AtanInv(239, 0, RFrac(1, 239), 10))), Prec)
TwoPi == RMul(RInt(2), Pi)
HalfPi == RDiv(Pi, RInt(2))

\* the angle minus the nearest multiple of 2 pi
Reduce(a) == RRound(RSub(a, RMul(RRound(RDiv(a, TwoPi), 0), TwoPi)), Prec)

RECURSIVE Series(_, _, _, _)
\* sum of (-1)^j x^(2j) (...): next term from term by * -x2 / (k (k+1))
Series(term, x2, k, left) ==
    IF left = 0 THEN RInt(0)
    ELSE RAdd(term, Series(RRound(RDiv(RNeg(RMul(term, x2)), RInt(k * (k + 1))), Prec), x2, k + 2, left - 1))

Cos(a) == LET x == Reduce(a) IN Series(RInt(1), RRound(RMul(x, x), Prec), 1, 20)
Sin(a) == LET x == Reduce(a) IN Series(x, RRound(RMul(x, x), Prec), 2, 20)

\* v rotated by a about the unit vector k, counter-clockwise seen from its tip
Rotate(v, k, a) ==
    LET c == Cos(a)
        s == Sin(a)
    IN VAdd(VAdd(VScale(c, v), VScale(s, VCross(k, v))),
            VScale(RMul(VDot(k, v), RSub(RInt(1), c)), k))
=============================================================================
