------------------------------ MODULE HyperGen ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, IOUtils, Json
CONSTANTS Len_, Depth, Num
VARIABLE c
R(S) == RandomElement(S)
RECURSIVE Tree(_)
(* a kernel expression in prefix form *)
Tree(d) == IF d = 0 THEN <<R({"R", "L", "P", "Z"})>>
           ELSE LET k == R(1..5) IN IF k <= 2 THEN <<R({"R", "L", "P", "Z"})>>
                ELSE <<R({"+", "*"})>> \o Tree(d - 1) \o Tree(d - 1)
Op(i) == LET o == R({"set", "set", "get", "setget", "draw", "pref", "ord", "abs", "reset", "kset", "kget", "kdraw", "poke", "levels", "predict", "predict", "optimize"})
         IN [op |-> o, x |-> [k \in 1..56 |-> R(1..40) * 50000], how |-> R(0..5), lv |-> R(3..8), i |-> i]
Init == c = 0
Next == /\ c < Num /\ c' = c + 1
        /\ \E t \in {Tree(Depth - (c % 2))} :
            CSVWrite("%1$s", <<ToJson([tree |-> t, n1 |-> R({0, 1, 1}), n3 |-> R({0, 1, 2}), only |-> R({0, 0, 1}), model |-> R({"pgp", "pgp", "plin"}),
                                       acts |-> [i \in 1..Len_ |-> Op(i)]])>>, IOEnv.OUT)
Spec == Init /\ [][Next]_c
=============================================================================
