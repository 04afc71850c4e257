----------------------------- MODULE InformDesign -----------------------------
(* Somebody has one order of the items in mind.  The asker holds every order not yet ruled out, asks
   for the best of some items, prefers the query that would tell most, and rules out the orders that
   would have answered otherwise.  Every query that would tell nothing has a known answer, and asking
   only the best queries finds out everything.                                                      *)
EXTENDS Inform, TLC
CONSTANTS Items, MaxPick, Weird    \* Weird: also every small table of probabilities
VARIABLES truth, left, asked, table
vars == <<truth, left, asked, table>>
Orders == {o \in [1..Items -> 0..(Items - 1)] : \A i, j \in 1..Items : i # j => o[i] # o[j]}
Queries == {Q \in SUBSET (1..Items) : Cardinality(Q) \in 2..MaxPick}
BestOf(o, Q) == CHOOSE i \in Q : \A j \in Q : o[i] >= o[j]
RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Seq1(S \ {x})
Table(H, Q) == LET hs == Seq1(H)  qs == Seq1(Q) IN [w \in DOMAIN hs |-> [k \in DOMAIN qs |-> IF BestOf(hs[w], Q) = qs[k] THEN U ELSE 0]]
GainOf(H, Q) == Gain(Table(H, Q))
Known(H, Q) == \A g, h \in H : BestOf(g, Q) = BestOf(h, Q)
Small == {0, U \div 4, U \div 2, (3 * U) \div 4, U}
Init == /\ truth \in Orders /\ left = Orders /\ asked = {}
        /\ table \in IF Weird THEN {<<<<a, U - a>>, <<b, U - b>>, <<c, U - c>>>> : a, b, c \in Small} ELSE {<<<<U>>>>}
Ask == \E Q \in Queries :
         /\ GainOf(left, Q) > GainTol
         /\ \A R \in Queries : GainOf(left, R) <= GainOf(left, Q)
         /\ left' = {h \in left : BestOf(h, Q) = BestOf(truth, Q)}
         /\ asked' = asked \cup {Q} /\ UNCHANGED <<truth, table>>
Next == Ask
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
TruthStays == truth \in left
TellsExactly == \A Q \in Queries : Known(left, Q) <=> GainOf(left, Q) <= GainTol
Bounded == \A Q \in Queries : GainOf(left, Q) >= -GainTol /\ GainOf(left, Q) <= GainMost(Cardinality(Q)) + GainTol
OnceEach == \A Q \in asked : Known(left, Q)
Finds == <>(Cardinality(left) = 1)
(* any table of probabilities *)
Swap(P) == [w \in DOMAIN P |-> IF Len(P[w]) = 2 THEN <<P[w][2], P[w][1]>> ELSE P[w]]
Turn(P) == [w \in DOMAIN P |-> P[1 + (w % Len(P))]]
Laws == LET g == Gain(table) IN
        /\ g >= -GainTol /\ g <= GainMost(Len(table[1])) + GainTol
        /\ Near(g, Gain(Swap(table)), 8) /\ Near(g, Gain(Turn(table)), 8)
        /\ (\A w \in DOMAIN table : table[w] = table[1]) => Abs(g) <= GainTol
        /\ (g <= GainTol => \A w \in DOMAIN table : Abs(table[w][1] - table[1][1]) <= U \div 4)
Ones == <<<<U, U, U>>, <<U, U, U>>, <<U, U, U>>>>
(* when every sample agrees fully with every other, all queries are worth the same *)
Indifferent == Len(table) = 3 =>
   LET pm == [w \in 1..3 |-> <<<<U \div 2, table[w][1]>>, <<table[w][2], U \div 2>>>>] IN
   LET e == Expected(pm, Ones, <<0, 1>>)  n == Cardinality({q \in 1..2 : \E w \in 1..3 : table[w][q] > 0}) IN Near(e, U, ExpectedTol(pm, <<0, 1>>, TRUE))
(* what an answer tells about which candidate is the best: nothing when that is known, and never more
   than there is to know *)
Best == Len(table) = 3 /\ Sum([w \in 1..3 |-> table[w][1]]) > 0 =>
   LET pb == Share([w \in 1..3 |-> table[w][1]])
       pm == <<[i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN U \div 2 ELSE IF i < j THEN table[i][1] ELSE table[j][2]]]>>
       gains == {PairGain(m, pm, T, pb) : m \in {"probit", "99", "999"}, T \in {<<0, 1>>, <<1, 2>>}} IN
   /\ \A g \in gains : g <= Entropy(pb) + 8
   /\ (\E i \in 1..3 : pb[i] = U) => \A g \in gains : Abs(g) <= 8
===============================================================================
