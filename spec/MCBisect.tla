------------------------------ MODULE MCBisect ------------------------------
(* The bisection machine over [0, Size] with every set of bends.           *)
EXTENDS Bisect, TLC, FiniteSets

CONSTANT Size
VARIABLES bends, todo, done

Init == /\ bends \in SUBSET (1 .. Size - 1)
        /\ todo = <<<<0, Size>>>>
        /\ done = <<0>>

Accept == /\ todo # <<>>
          /\ Flat(bends, todo[1][1], todo[1][2])
          /\ done' = Append(done, todo[1][2])
          /\ todo' = Tail(todo)
          /\ UNCHANGED bends
Halve  == /\ todo # <<>>
          /\ ~Flat(bends, todo[1][1], todo[1][2])
          /\ LET a == todo[1][1]
                 b == todo[1][2]
                 m == (a + b) \div 2
             IN todo' = <<<<a, m>>, <<m, b>>>> \o Tail(todo)
          /\ UNCHANGED <<bends, done>>
Show(s) == LET RECURSIVE J(_) J(i) == IF i > Len(s) THEN "" ELSE ToString(s[i]) \o (IF i = Len(s) THEN "" ELSE " ") \o J(i + 1)
           IN J(1)
RECURSIVE Bits(_, _)
Bits(K, i) == IF i >= Size THEN <<>> ELSE <<IF i \in K THEN 1 ELSE 0>> \o Bits(K, i + 1)
Emit   == /\ todo = <<>>
          /\ PrintT("@@SCN " \o Show(Bits(bends, 1)))
          /\ UNCHANGED <<bends, todo, done>>
Next == Accept \/ Halve \/ Emit
Spec == Init /\ [][Next]_<<bends, todo, done>>

\* what is done and what is to do tile the range, in order
Tiled == /\ \A i \in 1 .. Len(done) - 1 : done[i] < done[i + 1]
         /\ done[1] = 0
         /\ IF todo = <<>> THEN done[Len(done)] = Size
            ELSE /\ todo[1][1] = done[Len(done)]
                 /\ \A i \in 1 .. Len(todo) - 1 : todo[i][2] = todo[i + 1][1]
                 /\ todo[Len(todo)][2] = Size
                 /\ \A i \in 1 .. Len(todo) : todo[i][1] < todo[i][2]
\* every bend ends up as a boundary, and the list is the one the operator Leaves gives
Complete == todo = <<>> => /\ \A k \in bends : \E i \in 1 .. Len(done) : done[i] = k
                           /\ done = <<0>> \o Leaves(bends, 0, Size)
\* only needed boundaries: no two accepted brothers without a bend between them
Minimal == \A i \in 2 .. Len(done) - 1 :
              LET l == done[i] - done[i - 1]
                  r == done[i + 1] - done[i]
              IN (l = r /\ done[i - 1] % (2 * l) = 0) => done[i] \in bends
=============================================================================
