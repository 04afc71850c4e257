------------------------------ MODULE CVFoldsGen ------------------------------
EXTENDS CVFolds, TLC, CSV, IOUtils, Json, Randomization, SequencesExt
CONSTANTS MinN, MaxN, Num
VARIABLE c
R(S) == RandomElement(S)
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Pairs(n) == {t \in {-1, 1} \X (0..(n - 1)) \X (0..(n - 1)) : t[2] # t[3]}
Init == c = 0
Shuf(S) == LET q == SetToSeq(S) IN IF q = <<>> THEN q ELSE R(IF Len(q) <= 4 THEN SetToSeqs(S) ELSE {q, Reverse(q)})
Next == /\ c < Num /\ c' = c + 1
        /\ \E n \in {R(MinN..MaxN)} : \E k \in {R(1..(n \div 2 + 3))} : \E m \in {R(0..(2 * n))} : \E w \in {R(0..7)} :
           \E ps \in {IF n < 2 THEN <<>> ELSE R([1..m -> Pairs(n)])} :
           \E os \in {R([1..R(0..n) -> (1..5) \X (0..(n - 1))])} : \E as \in {R([1..R(0..n) -> (0..9) \X (0..(n - 1))])} :
           \E star \in {R(0..3)} : \E sub \in {RandomSubset(R(0..n), 0..(n - 1))} :
             Emit([n |-> n, k |-> k, dim |-> R({0, 1, 2, 3}),
                   pairs |-> IF star = 0 /\ n > 1 THEN [i \in 1..(n - 1) |-> <<1, 0, i>>] ELSE ps,
                   ords |-> os, abss |-> as, has |-> <<IF w \div 4 = 0 THEN 1 ELSE R({0, 1}), (w \div 2) % 2, w % 2>>,
                   idx |-> IF R(0..3) = 0 THEN Shuf(sub) ELSE Shuf(sub), ic |-> R({"list", "array", "tuple"})])
Spec == Init /\ [][Next]_c
=============================================================================
