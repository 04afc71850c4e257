------------------------------ MODULE KernelsGen ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, IOUtils, Json
CONSTANTS Depth, Big, Num
VARIABLE c
R(S) == RandomElement(S)
RECURSIVE Tree(_)
Tree(d) == IF d = 0 THEN <<R({"R", "L", "P", "Z", "O"})>>
           ELSE LET k == R(1..5) IN IF k = 1 THEN <<R({"R", "L", "P", "Z", "O"})>>
                ELSE <<R({"+", "*"})>> \o Tree(d - 1) \o Tree(d - 1)
Pt(d) == [i \in 1..d |-> R({0, 0, 1, 2, 3, 4, -1, -2})]
Params == [i \in 1..8 |-> <<R({2, 3, 4, 5, 6}), R({2, 3, 4, 5}), R({3, 4, 5, 6, 8})>>]
(* same: 0 different sets, 1 the same array, 2 an equal copy, 3 reversed, 4 a prefix, 5 equal but one point *)
Step(d) == [q |-> Params, X |-> [i \in 1..R({1, 2, 3, 4, 5, 6, 12}) |-> Pt(d)], Y |-> [i \in 1..R({1, 2, 3, 4}) |-> Pt(d)],
            same |-> R({0, 0, 1, 2, 3, 4, 5}), cont |-> R(0..3), zero |-> R({0, 0, 0, 1})]
(* many points at once *)
Long(d) == LET n == R(50..66)  s == R({0, 0, 0, 4, 1}) IN
           [q |-> Params, X |-> [i \in 1..(IF s = 1 THEN n - 10 ELSE n) |-> Pt(d)], Y |-> [i \in 1..R(2..4) |-> Pt(d)], same |-> s, cont |-> R(0..3), zero |-> 0]
Init == c = 0
Next == /\ c < Num /\ c' = c + 1
        /\ \E d \in {IF R(1..9) = 1 THEN R(9..12) ELSE R({1, 2, 3, 4, 5})} : \E t \in {Tree(c % (Depth + 1))} : \E z \in {R({0, 0, 1})} :
             CSVWrite("%1$s", <<ToJson([tree |-> t, dim |-> d, zp |-> IF z = 1 THEN Pt(d) ELSE [i \in 1..d |-> 0], zgiven |-> z, noise |-> R({0, 1, 3}),
                                        acts |-> IF Big = 1 THEN <<Long(d)>> ELSE [i \in 1..3 |-> Step(d)]])>>, IOEnv.OUT)
Spec == Init /\ [][Next]_c
=============================================================================
