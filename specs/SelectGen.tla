------------------------------ MODULE SelectGen ------------------------------
(* Selection calls: exhaustive over (n, prev, preferred, k, options) up to MaxN with drawn means
   and variances (Mode "all"), or drawn calls over larger sets (Mode "draw").                 *)
EXTENDS Select, TLC, CSV, IOUtils, Json, Randomization, SequencesExt

CONSTANTS MinN, MaxN, Mode, Count
VARIABLE c
R(S) == RandomElement(S)

SetSeq(S) == SetToSortSeq(S, <)
Means == (-3)..3
Case(n, pv, pk, ps, k, ab, rns) ==
   [n |-> n, prev |-> SetSeq(pv), pk |-> pk, ps |-> SetSeq(ps), k |-> k, ab |-> ab, rns |-> rns,
    mu |-> [i \in 1..n |-> R(Means)], sd |-> [i \in 1..n |-> R(0..3)], al |-> R({0, 1, 2, 3, 8}),
    pts |-> IF pk \notin {"pareto", "dpareto"} /\ R(1..5) = 1 THEN LET x == R((0..4) \X (0..4)) IN [i \in 1..n |-> x]   \* all alike
            ELSE SetToSeq(RandomSubset(n, IF n <= 25 THEN (0..4) \X (0..4) ELSE (0..12) \X (0..12))), pc |-> R({"list", "set", "tuple"}),
    kind |-> R({"best", "worst", "ucb", "random"}),
    rep |-> R({0, 0, 1}), \* previous selections listed more than once
    re |-> R(0..1)]   \* the array of candidates held other points at an earlier selection

Small == UNION {{<<n, pv, p, k, ab, rns>> : pv \in SUBSET (0..(n - 1)), p \in SUBSET (0..(n - 1)),
                   k \in 1..(n + 1), ab \in {0, 1}, rns \in {0, 1}} : n \in 1..MaxN}
Kind(n, p) == R(IF p = 0..(n - 1) THEN {"list", "set", "none", "zero", "over"}
              ELSE IF p # {} /\ p = 0..(Cardinality(p) - 1) THEN {"list", "set", "count", "pareto"}
              ELSE {"list", "set", "list", "set", "pareto", "dpareto"})
Emit(x) == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)

AllInit == \E t \in Small : LET x == Case(t[1], t[2], Kind(t[1], t[3]), t[3], t[4], t[5], t[6]) IN
             /\ Emit(x) /\ c = t
DrawInit == c = 0
DrawNext == /\ c < Count /\ c' = c + 1
            /\ \E n \in {R(MinN..MaxN)} : \E np \in {R(0..n)} : \E nq \in {R(0..n)} : \E k \in {R(1..(n \div 2 + 2))} :
               \E ab \in {R({0, 1})} : \E rns \in {R({0, 1})} : \E q \in {RandomSubset(nq, 0..(n - 1))} :
                 Emit(Case(n, RandomSubset(np \div 2, 0..(n - 1)), Kind(n, q), q, k, ab, rns))
Init == IF Mode = "all" THEN AllInit ELSE DrawInit
Next == Mode = "draw" /\ DrawNext
Spec == Init /\ [][Next]_c
=============================================================================
