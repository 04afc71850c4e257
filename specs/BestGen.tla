------------------------------- MODULE BestGen -------------------------------
(* Means and covariances, and what is done to them. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, IOUtils, Json, Randomization
CONSTANTS Kind, Num
VARIABLE c
R(S) == RandomElement(S)
Now(s) == <<>> \o s
RECURSIVE Draw(_)
Draw(S) == IF S = {} THEN <<>> ELSE LET x == R(S) IN <<x>> \o Draw(S \ {x})
Methods == {"full", "independent", "switch", "auto"}
Row(n, m) == Now([i \in 1..n |-> R((-m)..m)])
Dot(a, b) == LET S[i \in 0..Len(a)] == IF i = 0 THEN 0 ELSE S[i - 1] + a[i] * b[i] IN S[Len(a)]
(* a covariance: squares of spreads plus shared parts *)
Mixed(n) == LET A == Now([i \in 1..n |-> Row(2, 2)]) d == Now([i \in 1..n |-> R(1..4)]) IN Now([i \in 1..n |-> Now([j \in 1..n |-> Dot(A[i], A[j]) + IF i = j THEN d[i] ELSE 0])])
Alone(sd) == Now([i \in DOMAIN sd |-> Now([j \in DOMAIN sd |-> IF i = j THEN sd[i] * sd[i] ELSE 0])])
Blocks(sd, mate, sg) == Now([i \in DOMAIN sd |-> Now([j \in DOMAIN sd |-> IF i = j THEN sd[i] * sd[i] ELSE IF mate[i] = j THEN (sg * sd[i] * sd[j]) \div 2 ELSE 0])])
Evens(n) == Now([i \in 1..n |-> R({2, 4, 6})])
Three(sd, a, b) == LET s(i, j) == (sd[i] * sd[j]) \div 2 IN      \* correlations of a half, or none
  <<<<sd[1] * sd[1], a * s(1, 2), b * s(1, 3)>>, <<a * s(1, 2), sd[2] * sd[2], a * b * s(2, 3)>>, <<b * s(1, 3), a * b * s(2, 3), sd[3] * sd[3]>>>>
Cdf(z) ==
  LET k == R({"alone", "alone", "pairs", "pairs", "three", "mixed"})  n == IF k = "three" THEN 3 ELSE R(1..5)  sd == Evens(n)
      p == Draw(1..n)  pairs == R(0..(n \div 2))
      mate == Now([i \in 1..n |-> LET at == CHOOSE a \in 1..n : p[a] = i IN IF at > 2 * pairs THEN 0 ELSE IF at % 2 = 1 THEN p[at + 1] ELSE p[at - 1]])
      mean == Now([i \in 1..n |-> IF k = "three" \/ (k = "pairs" /\ mate[i] # 0) THEN 0 ELSE sd[i] * R((-9)..9)])
  IN [kind |-> "cdf", method |-> R(Methods \cup {"mvn"}), mu |-> mean,
      C |-> CASE k = "alone" -> Alone(sd) [] k = "pairs" -> Blocks(sd, mate, R({-1, 1})) [] k = "three" -> Three(sd, R({-1, 0, 1}), R({-1, 0, 1})) [] k = "mixed" -> Mixed(n)]
Many(z) ==
  LET n == R(2..5)  k == R({"mixed", "mixed", "even", "even", "alike"})  s == R({2, 4})
  IN [kind |-> "best", method |-> IF n = 5 THEN R(Methods \ {"auto"}) ELSE R(Methods),
      mu |-> CASE k = "even" -> Now([i \in 1..n |-> s * R((-5)..5)]) [] k = "mixed" -> Row(n, 12) [] k = "alike" -> Now([i \in 1..n |-> R({0, 2})]),
      C |-> IF k = "mixed" THEN Mixed(n) ELSE LET b == R(0..3) IN Now([i \in 1..n |-> Now([j \in 1..n |-> (IF i = j THEN (s * s) \div 2 ELSE 0) + b])]),
      turn |-> Draw(1..n), shift |-> R((-40)..40), up |-> R(1..n), by |-> R(1..6)]
Fit(z) == LET n == R(2..5) IN [kind |-> "fit", method |-> R({"full", "independent"}), n |-> n, seed |-> R(0..9999), turn |-> Draw(1..n)]
Linear(z) == LET n == IF R(1..12) = 1 THEN R(20..40) ELSE R(1..6) d == R(1..3) IN [kind |-> "linear", W |-> Now([w \in 1..(IF R(1..12) = 1 THEN R(130..200) ELSE R({1, 2, 5, 12})) |-> Row(d, 4)]), X |-> Now([i \in 1..n |-> Row(d, 4)]), F |-> Now([i \in 1..2 |-> Row(d, 3)])]
Init == c = 0
Next == /\ c < Num /\ c' = c + 1
        /\ \E x \in {CASE Kind = "cdf" -> Cdf(c) [] Kind = "best" -> Many(c) [] Kind = "fit" -> Fit(c) [] Kind = "linear" -> Linear(c)} :
             CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Spec == Init /\ [][Next]_c
===============================================================================
