-------------------------------- MODULE CVFolds --------------------------------
(* Cross-validation folds and label restriction (training_utility.py).

   A fold assignment of points 0..N-1 is a sequence of sequences of points.  Labels are
   <<sign, a, b>> comparisons, <<value, a>> ratings and scores.                             *)
EXTENDS Integers, Sequences, FiniteSets

CeilDiv(a, b) == (a + b - 1) \div b
Rng(s) == {s[i] : i \in DOMAIN s}
SumLen(f) == LET S[i \in 0..Len(f)] == IF i = 0 THEN 0 ELSE S[i - 1] + Len(f[i]) IN S[Len(f)]

(* the number of folds made when k are asked for; 0: none *)
Count(N, k) == IF k > N \div 2 THEN (IF N \div 2 < 2 THEN 0 ELSE N \div 2) ELSE k

CCount(N, k, f) == Len(f) = Count(N, k)
CPartition(N, f) == /\ UNION {Rng(f[i]) : i \in DOMAIN f} = 0..(N - 1)
                    /\ SumLen(f) = N
CSize(N, k, f) == \A i \in DOMAIN f : Len(f[i]) <= CeilDiv(N, Count(N, k))

(* restriction of labels to the points listed in idx: position in idx, in label order *)
Pos(idx, p) == CHOOSE i \in DOMAIN idx : idx[i] = p
RestrictPairs(ls, idx) == LET K == Rng(idx)
                          IN [i \in DOMAIN SelectSeq(ls, LAMBDA t : t[2] \in K /\ t[3] \in K) |->
                                LET t == SelectSeq(ls, LAMBDA u : u[2] \in K /\ u[3] \in K)[i]
                                IN <<t[1], Pos(idx, t[2]) - 1, Pos(idx, t[3]) - 1>>]
RestrictVals(ls, idx) == LET K == Rng(idx)
                             kept == SelectSeq(ls, LAMBDA u : u[2] \in K)
                         IN [i \in DOMAIN kept |-> <<kept[i][1], Pos(idx, kept[i][2]) - 1>>]
=============================================================================
