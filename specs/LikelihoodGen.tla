---------------------------- MODULE LikelihoodGen ----------------------------
EXTENDS Likelihood, TLC, CSV, IOUtils, Json
CONSTANTS MaxN, Num
VARIABLE c
R(S) == RandomElement(S)
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Init == c = 0
Next == /\ c < Num /\ c' = c + 1
        /\ \E n \in {R(1..MaxN)} : \E m \in {R({1, 3, 8, 40})} : \E F \in {R([1..n -> (-m)..m])} :
           \E np \in {R(0..8)} : \E no \in {R(0..5)} : \E na \in {R(0..5)} : \E lv \in {R(2..7)} :
             Emit([F |-> F, sigma |-> R({1, 5, 10, 30, 100}), unit |-> R({5, 10, 100}), n |-> lv, b |-> R({2, 5, 10, 30}), v |-> R({20, 50, 200, 800}),
                   vec |-> R({0, 1}), big |-> R(0..9),
                   pairs |-> R([1..np -> {-1, 1} \X (0..(n - 1)) \X (0..(n - 1))]),
                   ords |-> R([1..no -> (1..lv) \X (0..(n - 1))]), abss |-> R([1..na -> (1..9) \X (0..(n - 1))])])
Spec == Init /\ [][Next]_c
=============================================================================
