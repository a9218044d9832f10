------------------------------ MODULE RatTest -------------------------------
(***************************************************************************)
(* Self-test of the arithmetic: on every pair of small rationals the class *)
(* Rat.java and the definitions of Rat.tla (repeated here under other      *)
(* names) agree; and Trig agrees with identities it does not use.          *)
(***************************************************************************)
EXTENDS Trig

S == {<<n, d>> : n \in -7 .. 7, d \in 1 .. 5}
eq(a, b) == a[1] * b[2] = b[1] * a[2]
VARIABLES a, b
Init == a \in S /\ b \in S
Next == UNCHANGED <<a, b>>
p2(k) == 2 ^ k
Agree ==
    /\ eq(RAdd(a, b), <<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>)
    /\ eq(RSub(a, b), <<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>)
    /\ eq(RMul(a, b), <<a[1] * b[1], a[2] * b[2]>>)
    /\ b[1] # 0 => eq(RDiv(a, b), IF b[1] > 0 THEN <<a[1] * b[2], a[2] * b[1]>> ELSE <<-a[1] * b[2], -(a[2] * b[1])>>)
    /\ RLe(a, b) = (a[1] * b[2] <= b[1] * a[2])
    /\ RLt(a, b) = (a[1] * b[2] < b[1] * a[2])
    /\ REq(a, b) = eq(a, b)
    /\ eq(RNeg(a), <<-a[1], a[2]>>)
    /\ RSign(a) = (IF a[1] < 0 THEN -1 ELSE IF a[1] > 0 THEN 1 ELSE 0)
    /\ RFloor(a) = a[1] \div a[2]
    /\ \A k \in 0 .. 4 : eq(RRound(a, k), <<(2 * a[1] * p2(k) + a[2]) \div (2 * a[2]), p2(k)>>)
    /\ a[1] >= 0 => LET r == RSqrt(a, 4)
                    IN /\ RLe(RMul(r, r), a)
                       /\ RLt(a, RMul(RAdd(r, RPow2(-4)), RAdd(r, RPow2(-4))))
    /\ eq(F64(<<0, a[1], 3>>), <<8 * a[1], 1>>)
Tiny == RPow2(-64)
TrigOk ==
    (a[2] = 1 /\ b[2] <= 2) =>
    LET x == a  y == b
    IN /\ Near(RAdd(RMul(Sin(x), Sin(x)), RMul(Cos(x), Cos(x))), RInt(1), Tiny)
       /\ Near(Sin(RAdd(x, y)), RAdd(RMul(Sin(x), Cos(y)), RMul(Cos(x), Sin(y))), Tiny)
       /\ Near(Cos(RDiv(Pi, RInt(3))), RFrac(1, 2), Tiny)
       /\ Near(Sin(Pi), RInt(0), Tiny)
       /\ RLt(RFrac(355, 113), RAdd(Pi, RFrac(1, 1000000))) /\ RLt(Pi, RFrac(355, 113))
       /\ VNear(Rotate(<<RInt(1), RInt(0), RInt(0)>>, <<RInt(0), RInt(0), RInt(1)>>, x), <<Cos(x), Sin(x), RInt(0)>>, Tiny)
=============================================================================
