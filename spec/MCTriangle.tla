----------------------------- MODULE MCTriangle -----------------------------
(***************************************************************************)
(* The triangle test by three turns, against its meaning: p is a convex    *)
(* combination of the corners.  All counter-clockwise lattice triangles.   *)
(***************************************************************************)
EXTENDS Planar

CONSTANT Size
VARIABLES a, b, c
P(x) == <<RInt(x[1]), RInt(x[2])>>
Lattice == (0 .. Size) \X (0 .. Size)
Init == a \in Lattice /\ b \in Lattice /\ c \in Lattice /\ RSign(Turn(P(a), P(b), P(c))) > 0
Next == FALSE /\ UNCHANGED <<a, b, c>>

\* p = a + s (b - a) + t (c - a), solved by Cramer's rule
Combination(p) ==
    LET ab == VSub(P(b), P(a))
        ac == VSub(P(c), P(a))
        ap == VSub(p, P(a))
        d == Perp(ab, ac)
        s == RDiv(Perp(ap, ac), d)
        t == RDiv(Perp(ab, ap), d)
    IN RSign(s) >= 0 /\ RSign(t) >= 0 /\ RLe(RAdd(s, t), RInt(1))
Around == (-1 .. Size + 1) \X (-1 .. Size + 1)
Meaning == \A p \in Around : InTriangle(P(a), P(b), P(c), P(p)) = Combination(P(p))
Orientation == RSign(Area2(<<P(a), P(b), P(c)>>)) > 0 /\ RSign(Area2(<<P(a), P(c), P(b)>>)) < 0
N(x) == ToString(x[1]) \o " " \o ToString(x[2])
Emit == PrintT("@@SCN " \o ToString(Size) \o " " \o N(a) \o " " \o N(b) \o " " \o N(c))
=============================================================================
