----------------------------- MODULE SamplerGen -----------------------------
EXTENDS Sampler, TLC, CSV, IOUtils, Json, Randomization, SequencesExt
CONSTANTS Mode, Num
VARIABLE c
R(S) == RandomElement(S)
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Init == c = 0
Binom(n, k) == CASE k = 1 -> n [] k = 2 -> (n * (n - 1)) \div 2 [] k = n -> 1 [] k = n - 1 -> n
                 [] k = 3 -> (n * (n - 1) * (n - 2)) \div 6 [] OTHER -> n
Chains(z) == \E b \in {R(0..6)} : \E n \in {R(1..8)} : \E ns \in {R(1..5)} : \E d \in {R(1..3)} :
          \E ll \in {R([1..(ns + 1) -> {Impossible, -3, -2, -1, 0, 1, 2, 3}])} :
            Emit([kind |-> "chain", burn |-> b, num |-> n, dim |-> d, lls |-> ll, props |-> R([1..(b + n) -> 1..ns])])
(* levels close enough that the chain also goes down *)
Walks(z) == \E b \in {R(0..6)} : \E n \in {R(20..60)} : \E ns \in {R(2..6)} : \E d \in {R(1..2)} :
          \E ll \in {R([1..(ns + 1) -> {Impossible} \cup (0..8)])} :
            Emit([kind |-> "walk", burn |-> b, num |-> n, dim |-> d, lls |-> ll, props |-> R([1..(b + n) -> 1..ns]), low |-> R({0, 0, 0, 1})])
\* a chain of more than a thousand steps
Long(z) == \E b \in {R(0..60)} : \E n \in {R(1010..1400)} : \E ns \in {R(2..6)} :
          \E ll \in {R([1..(ns + 1) -> 0..8])} :
            Emit([kind |-> "walk", burn |-> b, num |-> n, dim |-> R(1..2), lls |-> ll, props |-> R([1..(b + n) -> 1..ns]), low |-> 0])
Sets(z) == \E n \in {IF R(1..12) = 1 THEN R(20..30) ELSE R(1..9)} : \E k \in {R(1..(IF n < 4 THEN n ELSE 4))} :
          \E m \in {R(0..Binom(n, k))} : \E v \in {RandomSubset(n, 0..30)} :
            Emit([kind |-> "sets", items |-> SetToSeq(v), form |-> R({"int", "list", "array"}), n |-> n, size |-> k, num |-> m])
LongChain(z) == \E b \in {R(0..60)} : \E n \in {R(1010..2100)} : \E ns \in {R(3..6)} :
          \E ll \in {R([1..(ns + 1) -> {Impossible, -3, -2, -1, 0, 1, 2, 3}])} :
            Emit([kind |-> "chain", burn |-> b, num |-> n, dim |-> R(1..2), lls |-> ll, props |-> R([1..(b + n) -> 1..ns])])
Next == c < Num /\ c' = c + 1 /\ (CASE Mode = "chain" -> Chains(c) [] Mode = "walk" -> Walks(c) [] Mode = "long" -> Long(c) [] Mode = "longchain" -> LongChain(c) [] OTHER -> Sets(c))
Spec == Init /\ [][Next]_c
=============================================================================
