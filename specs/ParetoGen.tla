------------------------------ MODULE ParetoGen ------------------------------
EXTENDS Pareto, TLC, CSV, IOUtils, Json, SequencesExt
CONSTANTS Mode, MinN, MaxN, Num
VARIABLE c
R(S) == RandomElement(S)
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Small == {0, 1, 2} \X {0, 1, 2}
\* points of a common total, of which none dominates another: the front is as large as the set
Flat(p, d) == [i \in DOMAIN p |-> [j \in 1..d |-> IF j < d THEN p[i][j] * 7 + i ELSE -FoldLeft(+, 0, [q \in 1..(d - 1) |-> p[i][q] * 7 + i])]]
AllInit == \E n \in 0..MaxN : \E p \in [1..n -> Small] : Emit([dim |-> 2, pts |-> p, form |-> R(0..8)]) /\ c = p
DrawNext == /\ c < Num /\ c' = c + 1
            /\ \E d \in {R({1, 2, 2, 3, 3, 4, 5})} : \E n \in {R(MinN..MaxN)} : \E m \in {R({1, 2, 3, 6})} :
               \E p \in {R([1..n -> [1..d -> (-m)..m]])} : \E w \in {R(0..3)} :
                 Emit([dim |-> d, pts |-> IF w > 0 \/ d = 1 THEN p ELSE Flat(p, d),
                       form |-> IF w > 0 \/ d = 1 THEN R(0..8) ELSE R({0, 1, 2, 3, 4, 5, 7})])     \* 6 and 8 hold small numbers only
Init == IF Mode = "all" THEN AllInit ELSE c = 0
Next == Mode = "draw" /\ DrawNext
Spec == Init /\ [][Next]_c
=============================================================================
