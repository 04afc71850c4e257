---------------------------- MODULE SamplerDesign ----------------------------
(* The chain as a machine over weighted states with every proposal and every draw (on a grid of
   Grid equally likely values), and the rejection sampler of unique sets.                     *)
EXTENDS Sampler, TLC
CONSTANTS States, Weight(_), Grid, Burn, Num
VARIABLES cur, step, out, last, sets, rounds
vars == <<cur, step, out, last, sets, rounds>>

(* accept iff w(prop)/w(cur) > u/Grid *)
Accepts(a, b, u) == IF Weight(a) = 0 THEN Weight(b) > 0 ELSE Weight(b) * Grid > u * Weight(a)

Init == cur \in States /\ step = 0 /\ out = <<>> /\ last = <<>> /\ sets = {} /\ rounds = 0
Step == /\ step < Burn + Num
        /\ \E p \in States : \E u \in 0..(Grid - 1) :
             LET n == IF Accepts(cur, p, u) THEN p ELSE cur
             IN /\ cur' = n /\ step' = step + 1
                /\ last' = <<cur, p, u, n>>
                /\ out' = IF step >= Burn THEN Append(out, n) ELSE out
        /\ UNCHANGED <<sets, rounds>>
(* unique sets: draw two-element sets until there are Num *)
Items == {1, 2, 3}
Draw == /\ step = 0 /\ Cardinality(sets) < Num /\ rounds < 4
        /\ \E a \in {x \in SUBSET Items : Cardinality(x) = 2} : sets' = sets \cup {a}
        /\ rounds' = rounds + 1 /\ UNCHANGED <<cur, step, out, last>>
Next == Step \/ Draw
Spec == Init /\ [][Next]_vars

W(i) == <<0, 1, 2, 4>>[i]
Counted == Len(out) = IF step <= Burn THEN 0 ELSE step - Burn
Follows == last = <<>> \/ (/\ last[4] \in {last[1], last[2]}
                           /\ (Weight(last[2]) >= Weight(last[1]) /\ Weight(last[2]) > 0 => last[4] = last[2])
                           /\ (Weight(last[2]) = 0 => last[4] = last[1]))
SetsOk == Cardinality(sets) <= Num /\ \A a \in sets : Cardinality(a) = 2
(* detailed balance of the acceptance rule *)
Acc(a, b) == Cardinality({u \in 0..(Grid - 1) : Accepts(a, b, u)})
Balanced == \A a, b \in States : Weight(a) = 0 \/ Weight(b) = 0 \/ Weight(a) * Acc(a, b) = Weight(b) * Acc(b, a)
=============================================================================
