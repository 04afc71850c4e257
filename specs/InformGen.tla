------------------------------- MODULE InformGen -------------------------------
(* Scripted samples and the queries to choose from. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, IOUtils, Json, Randomization, SequencesExt
CONSTANTS Kind, Num
VARIABLE c
R(S) == RandomElement(S)
Now(s) == <<>> \o s
Row(n, m) == Now([i \in 1..n |-> R((-m)..m)])
Rows(k, n, m) == Now([w \in 1..k |-> Row(n, m)])
SetSeq(S) == SetToSortSeq(S, <)
RECURSIVE Draw(_)
Draw(S) == IF S = {} THEN <<>> ELSE LET x == R(S) IN <<x>> \o Draw(S \ {x})
(* samples of which some may be alike *)
Repeat(rows) == Now([w \in DOMAIN rows |-> rows[R({w, w, w, 1})]])
Varied(x) == \E i, j \in DOMAIN x : x[i] # x[j]
Vary(rows) == Now([w \in DOMAIN rows |-> IF Varied(rows[w]) THEN rows[w] ELSE [rows[w] EXCEPT ![1] = @ + 1]])
Base(n) == LET P == RandomSubset(R(0..2), 0..(n - 1)) IN [n |-> n, earlier |-> R({0, 0, 1}), prev |-> SetSeq(P), k |-> R(1..2), pref |-> SetSeq(RandomSubset(R(1..n), 0..(n - 1)) \cup RandomSubset(1, (0..(n - 1)) \ P))]
Mi(z) == LET n == R(3..6) IN Base(n) @@ [kind |-> "mi", scale |-> R({0, 1, 1, 1, 4, 400}), M |-> R({1, 2, 3, 5, 8, 16}), linear |-> R({0, 0, 1}), W |-> Repeat(Rows(16, n, 12)),
                 gains |-> Now([g \in 1..3 |-> Draw(RandomSubset(R(1..n), 0..(n - 1)))])]
Gv(z) == LET n == R(3..6)  r == R(1..3) IN Base(n) @@ [kind |-> "gv", rank |-> r, A |-> Repeat(Rows(n, r, 2)), mu |-> Row(n, 3), al |-> R({0, 1, 2, 3, 8}), linear |-> R({0, 0, 0, 1})]
Acq(z) == LET n == R(3..6)  M == R({2, 3, 4, 5, 6, 8, 8}) IN Base(n) @@ [kind |-> "acq", M |-> M, W |-> Repeat(Rows(8, n, 10)), rep |-> Vary(Rows(8, 6, 15)), f |-> R({"rho", "epic", "spearman", "one"}), scale |-> R({1, 1, 1, 1000}), sigma |-> R({10, 10, 15})]
Bayes(z) == LET n == R(3..6) IN Base(n) @@ [kind |-> "bayes", k |-> R(1..3), mu |-> Row(n, 15), scale |-> R({1, 1, 1, 10, 10000}), m |-> R({"probit", "99", "999"}), pb |-> Now([i \in 1..n |-> R({0, 0, 1, 2, 3, 5, 8, 13, 40})])]
Align(z) == LET M == R(2..6) n == R(2..6) IN [kind |-> "align", M |-> M, n |-> n, f |-> R({"rho", "epic", "spearman", "one", "loglikelihood"}), rep |-> Vary(Rows(M, n, 15)), other |-> Vary(Rows(M, n, 15)), big |-> R({0, 0, 0, 1}),
                          Q |-> Now([k \in 1..R(1..4) |-> Draw(RandomSubset(2, 0..(n - 1)))])]
Rep(z) == [kind |-> "rep", n |-> R(3..8), train |-> R({0, 2, 3, 4, 6, 9, 14, 40}), pts |-> R({4, 6, 10, 30}), num |-> R({1, 5, 20, 60}), k |-> R(1..4), dim |-> R(1..2), file |-> R({0, 0, 0, 2, 3, 5})]      \* file: points in each of ten groups of a file
Rate(z) == LET n == R(2..4) IN [kind |-> "abs", n |-> n, M |-> R(2..4), W |-> Rows(4, n, 8), rep |-> Vary(Rows(4, 6, 15)), f |-> R({"rho", "epic", "spearman"}), off |-> SetSeq(RandomSubset(R(1..n), 0..(n - 1)))]
Init == c = 0
Next == /\ c < Num /\ c' = c + 1
        /\ \E x \in {CASE Kind = "mi" -> Mi(c) [] Kind = "gv" -> Gv(c) [] Kind = "acq" -> Acq(c) [] Kind = "align" -> Align(c) [] Kind = "rep" -> Rep(c) [] Kind = "abs" -> Rate(c) [] Kind = "bayes" -> Bayes(c)} :
             CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Spec == Init /\ [][Next]_c
===============================================================================
