-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic: the number system of every specification in  *)
(* this directory.                                                         *)
(*                                                                         *)
(* A rational is a pair <<num, den>> with den > 0.  The definitions below  *)
(* are the meaning; TLC's integers are 32 bits wide, so when TLC runs, the *)
(* class Rat.class (built from Rat.java, beside this file) overrides them  *)
(* with the same operations on arbitrary precision integers, keeping pairs *)
(* in lowest terms and storing an integer that needs more than 31 bits as  *)
(* <<sign, 30-bit limbs, least significant first>>.  RatTest.tla compares  *)
(* the two.  Because of that second form, rationals are compared with REq, *)
(* RLe and RLt, never with = or <, and taken apart only in this module.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

LOCAL AbsInt(n) == IF n < 0 THEN -n ELSE n

RInt(n)     == <<n, 1>>
RFrac(n, d) == IF d < 0 THEN <<-n, -d>> ELSE <<n, d>>
RAdd(a, b)  == <<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>
RSub(a, b)  == <<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>
RMul(a, b)  == <<a[1] * b[1], a[2] * b[2]>>
RDiv(a, b)  == RFrac(a[1] * b[2], a[2] * b[1])
RNeg(a)     == <<-a[1], a[2]>>
RAbs(a)     == <<AbsInt(a[1]), a[2]>>
RSign(a)    == IF a[1] < 0 THEN -1 ELSE IF a[1] > 0 THEN 1 ELSE 0
RLe(a, b)   == a[1] * b[2] <= b[1] * a[2]
RLt(a, b)   == a[1] * b[2] < b[1] * a[2]
REq(a, b)   == a[1] * b[2] = b[1] * a[2]
RMax(a, b)  == IF RLe(a, b) THEN b ELSE a
RMin(a, b)  == IF RLe(a, b) THEN a ELSE b

\* 2^k, for any integer k
RPow2(k)    == IF k >= 0 THEN <<Pow2(k), 1>> ELSE <<1, Pow2(-k)>>

\* a rounded to the nearest multiple of 2^-k
RRound(a, k) == <<(2 * a[1] * Pow2(k) + a[2]) \div (2 * a[2]), Pow2(k)>>

\* the largest multiple of 2^-k whose square is at most a (a >= 0)
RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(n, lo, hi) == IF hi - lo <= 1 THEN lo
                      ELSE LET m == (lo + hi) \div 2
                           IN IF m * m <= n THEN ISqrtIn(n, m, hi) ELSE ISqrtIn(n, lo, m)
ISqrt(n)     == ISqrtIn(n, 0, n + 1)
RSqrt(a, k)  == <<ISqrt((a[1] * Pow2(2 * k)) \div a[2]), Pow2(k)>>

\* the largest integer <= a, as an integer of the specification language
RFloor(a)    == a[1] \div a[2]

(***************************************************************************)
(* Recorded IEEE doubles arrive as <<hi, lo, exp>>, meaning                *)
(* (hi * 2^27 + lo) * 2^exp, hi and lo carrying the sign; NaN and the      *)
(* infinities have exp >= 90000.                                           *)
(***************************************************************************)
F64(x)       == RMul(RAdd(RMul(RInt(x[1]), RPow2(27)), RInt(x[2])), RPow2(x[3]))

\* decimal rendering for messages only
RDec(a)      == ""
=============================================================================
