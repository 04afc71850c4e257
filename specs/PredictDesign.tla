---------------------------- MODULE PredictDesign ----------------------------
(* Predicting many points a part at a time fills every place once with the value of its own point, and a
   running best over the values ends with a highest one.                                            *)
EXTENDS Predict, TLC
CONSTANTS MaxN, Sizes, Vals
VARIABLES n, size, order, out, low, best
vars == <<n, size, order, out, low, best>>
(* the points asked for: some order with repetitions, described by a step through 7 points *)
Ref(p) == (p * p) % Vals
Asked(k) == ((k * order) % 7) + 1
Min(a, b) == IF a < b THEN a ELSE b
Init == n \in 0..MaxN /\ size \in Sizes /\ order \in 0..6 /\ out = <<>> /\ low = 0 /\ best = 0
Part == /\ low < n
        /\ out' = out \o [k \in 1..(Min(n, low + size) - low) |-> Ref(Asked(low + k))]
        /\ low' = low + size
        /\ UNCHANGED <<n, size, order, best>>
Look == /\ low >= n /\ best < Len(out)
        /\ best' = best + 1
        /\ UNCHANGED <<n, size, order, out, low>>
Next == Part \/ Look
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RefT == [p \in 1..7 |-> Ref(p)]
Idx == [k \in 1..n |-> Asked(k)]
InOrder == Len(out) = Min(low, n) /\ \A k \in DOMAIN out : out[k] = Ref(Asked(k))
Done == low >= n => PerPoint(RefT, Idx, out)
BestSoFar == best > 0 => \E k \in 1..best : \A j \in 1..best : out[j] <= out[k]
BestAtEnd == best = n /\ n > 0 => \E b \in 0..(n - 1) : IsBest(RefT, Idx, b)
Ends == <>(best = n)
=============================================================================
