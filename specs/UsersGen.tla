------------------------------ MODULE UsersGen ------------------------------
EXTENDS Users, TLC, CSV, IOUtils, Json
CONSTANTS Mode, MaxN, Num
VARIABLE c
R(S) == RandomElement(S)
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Case(f, m, b, sc) == [rows |-> f, beta |-> b, scale |-> sc, user |-> R({"perfect", "human", "human2"})]
Vals == {-2, -1, 0, 1, 3}
AllInit == \E n \in 1..MaxN : \E f \in [1..n -> Vals] :
             Emit(Case(<<f, [i \in 1..n |-> R(Vals)]>>, 1, R({0, 10, 100, 1000, 15000}), R(0..5))) /\ c = f
DrawNext == /\ c < Num /\ c' = c + 1
            /\ \E n \in {R(1..MaxN)} : \E q \in {R(1..6)} : \E m \in {R({1, 3, 9, 1000})} :
               \E f \in {R([1..q -> [1..n -> (-m)..m]])} : Emit(Case(f, m, R({0, 1, 10, 100, 500, 1000, 5000, 15000}), R(0..5)))
Init == IF Mode = "all" THEN AllInit ELSE c = 0
Next == Mode = "draw" /\ DrawNext
Spec == Init /\ [][Next]_c
=============================================================================
