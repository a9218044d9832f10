-------------------------------- MODULE Vec --------------------------------
(* Vectors and points: tuples of rationals of any dimension.               *)
EXTENDS Rat, TLC

Zero3 == <<RInt(0), RInt(0), RInt(0)>>
VAdd(a, b)   == TLCEval([i \in 1 .. Len(a) |-> RAdd(a[i], b[i])])
VSub(a, b)   == TLCEval([i \in 1 .. Len(a) |-> RSub(a[i], b[i])])
VScale(s, a) == TLCEval([i \in 1 .. Len(a) |-> RMul(s, a[i])])
VNeg(a)      == TLCEval([i \in 1 .. Len(a) |-> RNeg(a[i])])
VRound(a, k) == TLCEval([i \in 1 .. Len(a) |-> RRound(a[i], k)])

RECURSIVE RSumFrom(_, _)
RSumFrom(s, i) == IF i > Len(s) THEN RInt(0) ELSE RAdd(s[i], RSumFrom(s, i + 1))
RSum(s)      == RSumFrom(s, 1)

RECURSIVE VDotFrom(_, _, _)
VDotFrom(a, b, i) == IF i > Len(a) THEN RInt(0)
                     ELSE RAdd(RMul(a[i], b[i]), VDotFrom(a, b, i + 1))
VDot(a, b)   == VDotFrom(a, b, 1)
VNorm2(a)    == VDot(a, a)
VDist2(a, b) == VNorm2(VSub(a, b))

VCross(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                  RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                  RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
Perp(a, b)   == RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))   \* 2D cross product

\* twice the signed area of the plane triangle a, b, c
Turn(a, b, c) == Perp(VSub(b, a), VSub(c, a))

VLerp(a, b, s) == VAdd(a, VScale(s, VSub(b, a)))

\* largest absolute coordinate
RECURSIVE VMaxFrom(_, _)
VMaxFrom(a, i) == IF i > Len(a) THEN RInt(0) ELSE RMax(RAbs(a[i]), VMaxFrom(a, i + 1))
VMax(a)      == VMaxFrom(a, 1)
\* over a sequence of points; points (wx, wy, wz, w) count where they are in space
PSize(q)     == IF Len(q) = 4 /\ RSign(q[4]) # 0 THEN RMax(RAbs(RDiv(q[1], q[4])), RMax(RAbs(RDiv(q[2], q[4])), RAbs(RDiv(q[3], q[4]))))
                ELSE VMax(q)
RECURSIVE PMaxFrom(_, _)
PMaxFrom(ps, i) == IF i > Len(ps) THEN RInt(0) ELSE RMax(PSize(ps[i]), PMaxFrom(ps, i + 1))
PMax(ps)     == PMaxFrom(ps, 1)

VSame(a, b)  == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : REq(a[i], b[i])

Near(a, b, tol)  == RLe(RAbs(RSub(a, b)), tol)
VNear(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1 .. Len(a) : Near(a[i], b[i], tol)

VLen(a, k)   == RSqrt(VNorm2(a), k)  \* length, 2^-k too small at most
-----------------------------------------------------------------------------
(* Recorded values.                                                        *)
IsNum(x)     == Len(x) = 3 /\ x[3] < 90000
IsVec(p, d)  == Len(p) = d /\ \A i \in 1 .. d : IsNum(p[i])
AllNum(s)    == \A i \in 1 .. Len(s) : IsNum(s[i])
AllVec(ps, d) == \A i \in 1 .. Len(ps) : IsVec(ps[i], d)
FV(p)        == TLCEval([i \in 1 .. Len(p) |-> F64(p[i])])
FVs(ps)      == TLCEval([i \in 1 .. Len(ps) |-> FV(ps[i])])

Eps(k)       == RPow2(-k)
\* the rounding allowance of a quantity computed from data of the given size
Slack(size)  == RMul(RFrac(1, 1000000000), RAdd(RInt(1), size))
\* the same where nothing depends on the unit of measure
Relative(size) == RMul(RFrac(1, 1000000000), size)
=============================================================================
