----------------------------- MODULE CVFoldsDesign -----------------------------
(* The fold algorithm with every random choice: take any remaining point, put it in a smallest
   fold, then take its neighbours in any order while the fold is below the limit.            *)
EXTENDS CVFolds, TLC
CONSTANTS MaxN, MaxK
VARIABLES N, k, g, folds, rem, cur, todo
vars == <<N, k, g, folds, rem, cur, todo>>

Edges(n) == {e \in SUBSET (0..(n - 1)) : Cardinality(e) = 2}
Init == \E n \in 2..MaxN : \E kk \in 1..MaxK : \E gg \in SUBSET Edges(n) :
          /\ Count(n, kk) > 0
          /\ N = n /\ k = kk /\ g = gg
          /\ folds = [i \in 1..Count(n, kk) |-> <<>>] /\ rem = 0..(n - 1) /\ cur = 0 /\ todo = {}

Smallest == {i \in DOMAIN folds : \A j \in DOMAIN folds : Len(folds[i]) <= Len(folds[j])}
Take == /\ cur = 0
        /\ \E p \in rem : \E i \in Smallest :
             /\ folds' = [folds EXCEPT ![i] = Append(@, p)]
             /\ rem' = rem \ {p} /\ cur' = i
             /\ todo' = {q \in 0..(N - 1) : {p, q} \in g}
        /\ UNCHANGED <<N, k, g>>
Full == Len(folds[cur]) >= CeilDiv(N, Count(N, k))
Neighbour == /\ cur > 0 /\ ~Full
             /\ \E q \in todo :
                  /\ todo' = todo \ {q}
                  /\ IF q \in rem THEN folds' = [folds EXCEPT ![cur] = Append(@, q)] /\ rem' = rem \ {q}
                     ELSE UNCHANGED <<folds, rem>>
             /\ UNCHANGED <<N, k, g, cur>>
Close == /\ cur > 0 /\ (Full \/ todo = {}) /\ cur' = 0 /\ todo' = {}
         /\ UNCHANGED <<N, k, g, folds, rem>>
Next == Take \/ Neighbour \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == rem = {} /\ cur = 0
SizeOk == CSize(N, k, folds)
PartOk == Done => CPartition(N, folds) /\ CCount(N, k, folds)
Disjoint == SumLen(folds) + Cardinality(rem) = N
Finishes == <>[]Done

(* restriction: laws of the definition, over all small label lists *)
ASSUME \A idx \in {<<0, 1, 2>>, <<2, 0>>, <<1>>, <<2, 1, 0>>} :
         \A a, b \in ({-1, 1} \X (0..2) \X (0..2)) :
            LET r == RestrictPairs(<<a, b>>, idx)
            IN /\ \A i \in DOMAIN r : r[i][2] \in 0..(Len(idx) - 1) /\ r[i][3] \in 0..(Len(idx) - 1)
               /\ \A i \in DOMAIN r : <<r[i][1], idx[r[i][2] + 1], idx[r[i][3] + 1]>> \in {a, b}
               /\ (Rng(idx) = 0..2 => Len(r) = 2)
=============================================================================
