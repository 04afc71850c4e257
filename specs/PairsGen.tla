------------------------------ MODULE PairsGen ------------------------------
EXTENDS Pairs, TLC, CSV, IOUtils, Json, Randomization, SequencesExt
CONSTANTS Mode, MinN, MaxN, Num
VARIABLE c
R(S) == RandomElement(S)
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Vals == {-2, 0, 1}
AllInit == \E n \in MinN..MaxN : \E f \in [1..n -> Vals] : \E r \in 0..(n - 1) :
             Emit([y |-> f, ref |-> r, sub |-> SetToSeq(RandomSubset(R(0..n), 0..(n - 1))), scale |-> R(0..4), cont |-> R(0..2), off |-> R({0, 0, 200, 1000})]) /\ c = <<f, r>>
DrawNext == /\ c < Num /\ c' = c + 1
            /\ \E n \in {R(MinN..MaxN)} : \E m \in {R({1, 3, 9, 1000})} : \E f \in {R([1..n -> (-m)..m])} :
                 Emit([y |-> f, ref |-> R(0..(n - 1)), sub |-> SetToSeq(RandomSubset(R(0..n), 0..(n - 1))), scale |-> R(0..4), cont |-> R(0..2), off |-> R({0, 0, 200, 1000})])
Init == IF Mode = "all" THEN AllInit ELSE c = 0
Next == Mode = "draw" /\ DrawNext
Spec == Init /\ [][Next]_c
=============================================================================
