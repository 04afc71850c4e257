------------------------------- MODULE Session -------------------------------
(* An active learning session.  What the model holds is [pts, prefs, rats]: points in the order they were
   asked about, comparisons <<sign, u, v>> and ratings <<rating, point>> with positions counted from 0.  *)
EXTENDS Integers, Sequences, FiniteSets

Empty == [pts |-> <<>>, prefs |-> <<>>, rats |-> <<>>]
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
(* a query: positions among n candidates *)
QueryOk(q, n) == Distinct(q) /\ \A k \in DOMAIN q : q[k] \in 0..(n - 1)
Winner(t) == IF t[1] < 0 THEN t[2] ELSE t[3]
Loser(t) == IF t[1] < 0 THEN t[3] ELSE t[2]
Bag(s) == [x \in {s[k] : k \in DOMAIN s} |-> Cardinality({k \in DOMAIN s : s[k] = x})]
(* the answers: one item chosen over every other; every two items compared *)
Chosen(labels, m, w) == Len(labels) = m - 1 /\ \A o \in (0..(m - 1)) \ {w} : Cardinality({k \in DOMAIN labels : Winner(labels[k]) = w /\ Loser(labels[k]) = o}) = 1
Choice(labels, m) == \E w \in 0..(m - 1) : Chosen(labels, m, w)
Ranked(labels, m, val) == /\ Len(labels) = (m * (m - 1)) \div 2
                          /\ \A k \in DOMAIN labels : Winner(labels[k]) \in 0..(m - 1) /\ Loser(labels[k]) \in 0..(m - 1)
                          /\ \A i, j \in 0..(m - 1) : i < j => \E k \in DOMAIN labels : {Winner(labels[k]), Loser(labels[k])} = {i, j}
                          /\ \A k \in DOMAIN labels : val[Winner(labels[k]) + 1] >= val[Loser(labels[k]) + 1]
Clamp(r) == IF r < 1000 THEN 1000 ELSE IF r > 999000 THEN 999000 ELSE r
Shift(t, n) == <<t[1], t[2] + n, t[3] + n>>
Compared(h, items, labels) == [pts |-> h.pts \o items, prefs |-> h.prefs \o [k \in DOMAIN labels |-> Shift(labels[k], Len(h.pts))], rats |-> h.rats]
Rated(h, items, ratings) == [pts |-> h.pts \o items, prefs |-> h.prefs, rats |-> h.rats \o [k \in DOMAIN ratings |-> <<Clamp(ratings[k]), Len(h.pts) + k - 1>>]]
(* what is held makes sense: every label is about a point held *)
WellFormed(h) == /\ \A k \in DOMAIN h.prefs : LET t == h.prefs[k] IN t[2] # t[3] /\ t[2] \in 0..(Len(h.pts) - 1) /\ t[3] \in 0..(Len(h.pts) - 1)
                 /\ \A k \in DOMAIN h.rats : h.rats[k][2] \in 0..(Len(h.pts) - 1)
(* labels are kept in any order and with either sign *)
Meaning(h) == [k \in DOMAIN h.prefs |-> <<Winner(h.prefs[k]), Loser(h.prefs[k])>>]
SameHeld(g, h) == g.pts = h.pts /\ Bag(Meaning(g)) = Bag(Meaning(h)) /\ Bag(g.rats) = Bag(h.rats)
=============================================================================
