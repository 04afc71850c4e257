------------------------------- MODULE DerivGen -------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, IOUtils, Json
CONSTANTS MinN, MaxN, Num
VARIABLE c
R(S) == RandomElement(S)
F(n) == [i \in 1..n |-> R((-30)..30)]
Pairs(n) == [i \in 1..(IF n > 6 THEN R(n..(n + 20)) ELSE R(1..5)) |-> LET u == R(0..(n - 1)) IN <<R({-1, 1}), u, R((0..(n - 1)) \ {u})>>]
RECURSIVE Draw(_)
Draw(S) == IF S = {} THEN <<>> ELSE LET x == R(S) IN <<x>> \o Draw(S \ {x})
Sub(n) == IF n > 6 THEN SubSeq(Draw(0..(n - 1)), 1, R((n \div 2)..n)) ELSE LET k == R(1..n) IN SubSeq(R({p \in [1..n -> 0..(n - 1)] : \A i, j \in 1..n : i # j => p[i] # p[j]}), 1, k)
RECURSIVE Tree(_)
Tree(d) == IF d = 0 THEN <<R({"R", "L", "P", "Z"})>> ELSE <<R({"+", "*"})>> \o Tree(d - 1) \o Tree(d - 1)
Case(n) == LET so == Sub(n)  sa == Sub(n) IN
  [n |-> n, F |-> F(n), pairs |-> Pairs(n), oidx |-> so, ord |-> [i \in DOMAIN so |-> R(1..5)],
   aidx |-> sa, abs |-> [i \in DOMAIN sa |-> R({1, 50, 200, 350, 500, 700, 930, 999})],
   has |-> R({<<1, 1, 1>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, 0, 1>>, <<0, 1, 1>>}),
   sig |-> <<R({2, 3, 4, 6}), R({2, 3, 4, 6}), R({3, 4, 6})>>, b |-> R({2, 4, 7}), v |-> R({4, 20, 60}), lv |-> R({3, 5, 5, 6}),
   tree |-> Tree(R({0, 0, 1, 2})), q |-> [i \in 1..4 |-> <<R(2..6), R(3..6), R({3, 4, 5, 6, 8})>>],
   X |-> [i \in 1..n |-> <<R(-2..4), R(-2..4)>>], w |-> <<R(-20..20), R(-20..20)>>]
Init == c = 0
Next == /\ c < Num /\ c' = c + 1
        /\ \E n \in {R(MinN..MaxN)} : CSVWrite("%1$s", <<ToJson(Case(n))>>, IOEnv.OUT)
Spec == Init /\ [][Next]_c
=============================================================================
