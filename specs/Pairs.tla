-------------------------------- MODULE Pairs --------------------------------
(* Comparisons stated from values, choices and rankings.  A comparison <<d, u, v>> says u is better
   when d = -1 and v is better when d = 1.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

Rng(s) == {s[i] : i \in DOMAIN s}
WellFormed(ps) == \A i \in DOMAIN ps : Len(ps[i]) = 3 /\ ps[i][1] \in {-1, 1} /\ ps[i][2] # ps[i][3]
Winner(p) == IF p[1] = -1 THEN p[2] ELSE p[3]
Loser(p) == IF p[1] = -1 THEN p[3] ELSE p[2]
Items(p) == {p[2], p[3]}

(* each of the required unordered pairs exactly once, and no other *)
ExactlyPairs(ps, req) == /\ Len(ps) = Cardinality(req)
                         /\ {Items(ps[i]) : i \in DOMAIN ps} = req
(* the winner's value is never below the loser's *)
RightWinner(ps, y) == \A i \in DOMAIN ps : y[Winner(ps[i]) + 1] >= y[Loser(ps[i]) + 1]
ChosenWins(ps, c) == \A i \in DOMAIN ps : Winner(ps[i]) = c

AllPairs(S) == UNION {{{u, v} : v \in {w \in S : w < u}} : u \in S}
Against(c, S) == {{c, x} : x \in S \ {c}}

(* what each generator must return *)
FromChoice(ps, c, S) == WellFormed(ps) /\ ExactlyPairs(ps, Against(c, S)) /\ ChosenWins(ps, c)
FromReference(ps, c, y) == WellFormed(ps) /\ ExactlyPairs(ps, Against(c, 0..(Len(y) - 1))) /\ RightWinner(ps, y)
FromRanking(ps, y) == WellFormed(ps) /\ ExactlyPairs(ps, AllPairs(0..(Len(y) - 1))) /\ RightWinner(ps, y)
Right(d, u, v) == IF u > v THEN d = -1 ELSE IF u < v THEN d = 1 ELSE d \in {-1, 1}
=============================================================================
