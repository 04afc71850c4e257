-------------------------------- MODULE Users --------------------------------
(* Synthetic users.  Values y are integers; probabilities and ratings are in units of 1/One. *)
EXTENDS Integers, Sequences, FiniteSets

One == 100000000
Abs(x) == IF x < 0 THEN -x ELSE x
Max(y) == CHOOSE m \in {y[i] : i \in DOMAIN y} : \A i \in DOMAIN y : y[i] <= m
Sum(p) == LET S[i \in 0..Len(p)] == IF i = 0 THEN 0 ELSE S[i - 1] + p[i] IN S[Len(p)]

CInQuery(n, c) == c \in 0..(n - 1)
CBest(y, c) == y[c + 1] = Max(y)
(* comparisons <<sign, a, b>>: b wins when the sign is 1 *)
Winner(t) == IF t[1] = 1 THEN t[3] ELSE t[2]
Loser(t) == IF t[1] = 1 THEN t[2] ELSE t[3]
CGiven(n, ps) == /\ \A k \in DOMAIN ps : ps[k][1] \in {-1, 1}
                 /\ \E c \in 0..(n - 1) : /\ \A k \in DOMAIN ps : Winner(ps[k]) = c
                                        /\ {Loser(ps[k]) : k \in DOMAIN ps} = (0..(n - 1)) \ {c}
                 /\ Len(ps) = n - 1
CGivenBest(y, ps) == \A k \in DOMAIN ps : CInQuery(Len(y), Winner(ps[k])) => CBest(y, Winner(ps[k]))
CDist(p) == (\A i \in DOMAIN p : p[i] >= 0 /\ p[i] <= One) /\ Abs(Sum(p) - One) <= Len(p) + 2
COrder(y, p) == \A i, j \in DOMAIN y : (y[i] > y[j] => p[i] >= p[j]) /\ (y[i] = y[j] => Abs(p[i] - p[j]) <= 1)
CUniform(p) == \A i \in DOMAIN p : Abs(p[i] - One \div Len(p)) <= 2
CSameRow(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Abs(p[i] - q[i]) <= 2
CRating(r) == r >= 0 /\ r <= One
(* ratings grow with the value; `sharp`: they are far from the ends, so strictly *)
CRateOrder(y, r, sharp) == \A i, j \in DOMAIN y : (y[i] > y[j] => IF sharp THEN r[i] > r[j] ELSE r[i] >= r[j])
                                                  /\ (y[i] = y[j] => r[i] = r[j])
(* a of n choices fell on an item of probability p (per cent): within 6 standard deviations and rounding *)
CFreq(a, n, p) == LET d == Abs(100 * a - n * p) IN d <= n + 300 \/ (d - n) * (d - n) <= 36 * n * p * (100 - p)
=============================================================================
