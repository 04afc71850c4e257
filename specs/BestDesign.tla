------------------------------ MODULE BestDesign ------------------------------
(* Candidates whose values are not known: as many equally likely worlds, each with its own values.  A
   candidate's chance of being the best is the share of the worlds in which it is (shared among equals).
   Candidates are raised, exchanged, and joined by one that is below all others in every world.
   And the tables: what is known about normal variables, for every small mean and covariance.          *)
EXTENDS Best, TLC
CONSTANTS Worlds, Values, Steps
VARIABLES w, old, did, by
vars == <<w, old, did, by>>
N == 3
Top(v) == {i \in DOMAIN v : \A j \in DOMAIN v : v[i] >= v[j]}
Best6(x) == [i \in 1..Len(x[1]) |-> Sum([k \in DOMAIN x |-> IF i \in Top(x[k]) THEN 12 \div Cardinality(Top(x[k])) ELSE 0])]   \* in 1/(12 * worlds)
Beats(x, i, j) == Sum([k \in DOMAIN x |-> IF x[k][i] > x[k][j] THEN 2 ELSE IF x[k][i] = x[k][j] THEN 1 ELSE 0])
Init == w \in [1..Worlds -> [1..N -> 0..Values]] /\ old = w /\ did = "none" /\ by = <<0, 0>>
Raise == did = "none" /\ \E i \in 1..N : w' = [k \in DOMAIN w |-> [w[k] EXCEPT ![i] = @ + 1]] /\ did' = "raise" /\ by' = <<i, i>> /\ old' = w
Swap == did = "none" /\ \E i, j \in 1..N : i < j /\ w' = [k \in DOMAIN w |-> [w[k] EXCEPT ![i] = w[k][j], ![j] = w[k][i]]] /\ did' = "swap" /\ by' = <<i, j>> /\ old' = w
Join == did = "none" /\ w' = [k \in DOMAIN w |-> Append(w[k], -1)] /\ did' = "join" /\ by' = <<0, 0>> /\ old' = w
Next == Raise \/ Swap \/ Join
Spec == Init /\ [][Next]_vars
All == 12 * Worlds
Total == Sum(Best6(w)) = All
Turn(i) == IF i = by[1] THEN by[2] ELSE IF i = by[2] THEN by[1] ELSE i
Laws == LET p == Best6(old) q == Best6(w) IN
        CASE did = "none" -> TRUE
          [] did = "raise" -> Raised(p, q, by[1], 0) /\ NoneElse(p, q, by[1], 0)
          [] did = "swap" -> Moved(p, q, [i \in 1..N |-> Turn(i)], 0)
          [] did = "join" -> Same(p, SubSeq(q, 1, N), 0) /\ q[N + 1] = 0
(* never more likely the best than it is to beat any single other *)
Bounded == \A i \in 1..N, j \in 1..N : i # j => Best6(w)[i] <= 6 * Beats(w, i, j)
(* of two candidates the better is the best *)
Two == \A i \in 1..2 : Best6([k \in DOMAIN w |-> SubSeq(w[k], 1, 2)])[i] = 6 * Beats(w, i, 3 - i)
===============================================================================
