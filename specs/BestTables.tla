------------------------------ MODULE BestTables ------------------------------
(* The tables of Best agree with each other, for every small mean and covariance. *)
EXTENDS Best, TLC
CONSTANTS Steps
VARIABLES q, C, m
vars == <<q, C, m>>
Mat(v) == <<<<4, 2 * v[1], 2 * v[2]>>, <<2 * v[1], 4, 2 * v[3]>>, <<2 * v[2], 2 * v[3], 4>>>>
Proper(v) == v[1] * v[2] * v[3] >= 0
Init == q = 0 /\ C \in {Mat(v) : v \in {u \in [1..3 -> {-1, 0, 1}] : Proper(u)}} /\ m \in [1..3 -> {-4, 0, 2}]
Up == q < Steps /\ Diag(C) /\ Zero(m) /\ q' = q + 1 /\ UNCHANGED <<C, m>>
Spec == Init /\ [][Up]_vars
Rises == Phi(q + 1) >= Phi(q) /\ Phi(-q) = U - Phi(q) /\ (q < 15 => Phi(q + 1) > Phi(q)) /\ (q >= 4 => Phi(q + 1) - Phi(q) <= Phi(q) - Phi(q - 1))
Flip(D, s) == [i \in DOMAIN D |-> [j \in DOMAIN D |-> s[i] * s[j] * D[i][j]]]
Signs == [1..3 -> {-1, 1}]
(* the eight orthants fill the space, and the pairs' quarters add up from them *)
Orthants == Halves(C) =>
   /\ Near(Sum([k \in 1..8 |-> Orthant(Flip(C, <<IF k % 2 = 0 THEN 1 ELSE -1, IF (k \div 2) % 2 = 0 THEN 1 ELSE -1, IF (k \div 4) % 2 = 0 THEN 1 ELSE -1>>))]), U, 8)
   /\ Near(Orthant(C) + Orthant(Flip(C, <<1, 1, -1>>)), Orthant(<<SubSeq(C[1], 1, 2), SubSeq(C[2], 1, 2)>>), 3)
   /\ Orthant(C) <= Most(<<0, 0, 0>>, C) /\ Orthant(C) >= Least(<<0, 0, 0>>, C)
   /\ (Diag(C) => Near(Orthant(C), Apart(<<0, 0, 0>>, C), 2))
   /\ (Paired(C) => Near(Orthant(C), InPairs(<<0, 0, 0>>, C), 3))
Bounds == Apart(m, C) <= Most(m, C) + 3 /\ Apart(m, C) >= Least(m, C) - 3
Even == LET D == <<<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 2>>>> IN
        AllExact(m, D) => /\ Near(Sum(OneByOne(m, D)), U, 3)
                          /\ \A i, j \in 1..3 : m[i] = m[j] => OneByOne(m, D)[i] = OneByOne(m, D)[j]
                          /\ \A i, j \in 1..3 : m[i] > m[j] => OneByOne(m, D)[i] > OneByOne(m, D)[j]
===============================================================================
