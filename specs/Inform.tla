-------------------------------- MODULE Inform --------------------------------
(* What the information-driven learners ask.  Probabilities are whole numbers of 1/U, indices of
   candidates count from 0, samples and rows from 1.  A sample is one possible set of values of all
   candidates; pm[w][i][j] is the probability that i beats j in sample w.                            *)
EXTENDS Integers, Sequences, FiniteSets

U == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a > b THEN a ELSE b
Sum(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE S[i - 1] + s[i] IN S[Len(s)]
Rng(s) == {s[i] : i \in DOMAIN s}
Near(a, b, tol) == Abs(a) <= 1000000000 /\ Abs(b) <= 1000000000 /\ Abs(a - b) <= tol

(* ---- logarithm to base 2 of n >= 1, in units of 1/4096 ---- *)
RECURSIVE Norm(_, _), Bits(_, _), Root(_, _, _)
Norm(n, e) == IF n >= 32768 THEN Norm(n \div 2, e + 1) ELSE IF n < 16384 THEN Norm(2 * n, e - 1) ELSE <<n, e>>
Bits(m, k) == IF k = 0 THEN 0 ELSE LET q == (m * m) \div 16384 IN
              IF q >= 32768 THEN 2 ^ (k - 1) + Bits(q \div 2, k - 1) ELSE Bits(q, k - 1)
Lg(n) == LET t == Norm(n, 14) IN t[2] * 4096 + Bits(t[1], 12)
(* the largest r in lo..hi with r*r <= n *)
Root(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
Sqrt(n) == Root(n, 0, 46340)
RECURSIVE Cube(_, _, _)
Cube(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m * m <= n THEN Cube(n, m, hi) ELSE Cube(n, lo, m - 1)

(* ---- how much an answer to a query would tell, in units of 1/U bit ----
   P[w][q]: the probability of answer q in sample w *)
Gain(P) ==
  LET M == Len(P)
      tot == [q \in DOMAIN P[1] |-> Sum([w \in 1..M |-> P[w][q]])]
      term(p, t) == IF p = 0 THEN 0 ELSE (p * (Lg(M * p) - Lg(t))) \div 4096
  IN Sum([w \in 1..M |-> Sum([q \in DOMAIN P[w] |-> term(P[w][q], tot[q])])]) \div M
GainTol == 40
GainMost(n) == (Lg(n) * U) \div 4096

(* ---- joint spread of a set of candidates, in hundredths ---- *)
Det(C, s) == CASE Len(s) = 1 -> C[s[1] + 1][s[1] + 1]
               [] Len(s) = 2 -> C[s[1] + 1][s[1] + 1] * C[s[2] + 1][s[2] + 1] - C[s[1] + 1][s[2] + 1] * C[s[2] + 1][s[1] + 1]
               [] Len(s) = 3 -> LET c(i, j) == C[s[i] + 1][s[j] + 1] IN
                                c(1, 1) * (c(2, 2) * c(3, 3) - c(2, 3) * c(3, 2)) - c(1, 2) * (c(2, 1) * c(3, 3) - c(2, 3) * c(3, 1))
                                + c(1, 3) * (c(2, 1) * c(3, 2) - c(2, 2) * c(3, 1))
Spread(C, s) == CASE Len(s) = 1 -> 100 * Det(C, s) [] Len(s) = 2 -> Sqrt(10000 * Det(C, s)) [] Len(s) = 3 -> Cube(1000000 * Det(C, s), 0, 1290)
SpreadScore(mu, C, al, prev, i) == 100 * mu[i + 1] + (al * Spread(C, prev \o <<i>>)) \div 2

(* ---- expected alignment after asking a query (a sequence of candidates), in units of 1/U ---- *)
Odds(pm, w, T, q) == LET R[k \in 0..Len(T)] == IF k = 0 THEN U ELSE IF k = q THEN R[k - 1] ELSE (R[k - 1] * pm[w][T[q] + 1][T[k] + 1]) \div U IN R[Len(T)]
Answer(pm, w, T) == LET o == [q \in DOMAIN T |-> Odds(pm, w, T, q)]  s == Sum(o) IN [q \in DOMAIN T |-> IF s = 0 THEN 0 ELSE (o[q] * U) \div s]
OneAnswer(f, p) ==
  LET M == Len(p)  s == Sum(p)
      part == [w \in 1..M |-> (p[w] * (Sum([v \in 1..M |-> f[w][v] * p[v]]) \div U)) \div U]
  IN IF s = 0 THEN 0 ELSE ((Sum(part) * 1000) \div (M * s)) * 10
Expected(pm, f, T) ==
  LET M == Len(pm)  a == [w \in 1..M |-> Answer(pm, w, T)] IN
  Sum([q \in DOMAIN T |-> OneAnswer(f, [w \in 1..M |-> a[w][q]])])
(* exact: the probabilities are all 0, 1/2 or 1 *)
ExpectedTol(pm, T, exact) ==
  LET M == Len(pm)  a == [w \in 1..M |-> Answer(pm, w, T)]
      one(q) == LET s == Sum([w \in 1..M |-> a[w][q]]) IN IF s = 0 THEN (IF exact THEN 5 ELSE 2 * U) ELSE 30 + (3 * M * U) \div s
  IN Sum([q \in DOMAIN T |-> one(q)])

(* ---- how much an answer tells about which candidate is the best: pb are the probabilities of being
   the best, pm[i][j] that i beats j, T the candidates asked about, m how the best one answers ---- *)
Entropy(p) == Sum([i \in DOMAIN p |-> IF p[i] = 0 THEN 0 ELSE (p[i] * (Lg(U) - Lg(p[i]))) \div 4096])
Posterior(told, pb) ==                          \* of an answer of which told[b] is the probability if b is the best
  LET k == Sum([b \in DOMAIN pb |-> told[b] * pb[b]]) \div 200000 + 1
      x == <<>> \o [b \in DOMAIN pb |-> (told[b] * pb[b]) \div k]  s == Sum(x) IN
  [b \in DOMAIN pb |-> IF s = 0 THEN 0 ELSE (x[b] * U) \div s]
Firm(m) == CASE m = "999" -> 9990 [] m = "99" -> 9900
RECURSIVE Power(_, _)
Power(p, n) == IF n = 0 THEN U ELSE (Power(p, n - 1) * p) \div U
Sure(pm, T, q) == LET R[k \in 0..Len(T)] == IF k = 0 THEN U ELSE IF k = q THEN R[k - 1] ELSE (R[k - 1] * MaxOf(pm[T[q] + 1][T[k] + 1], U - pm[T[q] + 1][T[k] + 1])) \div U IN R[Len(T)]
Share(o) == LET s == Sum(o) IN <<>> \o [q \in DOMAIN o |-> (o[q] * U) \div s]
ToldPair(m, pm, T, q, b) ==
  LET p == pm[T[q] + 1][T[3 - q] + 1] IN
  CASE b # T[1] /\ b # T[2] -> p
    [] m = "probit" -> IF b = T[q] THEN MaxOf(p, U - p) ELSE U - MaxOf(p, U - p)
    [] OTHER -> IF b = T[q] THEN Firm(m) ELSE U - Firm(m)
ToldMore(m, pm, T, b) ==
  Share(<<>> \o [q \in DOMAIN T |-> IF T[q] # b THEN Odds(pm, 1, T, q) ELSE IF m = "probit" THEN Sure(pm[1], T, q) ELSE Power(Firm(m), Len(T) - 1)])
BestGain(pq, told, pb) ==                       \* told[b][q]
  Entropy(pb) - Sum([q \in DOMAIN pq |-> (pq[q] * Entropy(<<>> \o Posterior(<<>> \o [b \in DOMAIN pb |-> told[b][q]], pb))) \div U])
PairGain(m, pm, T, pb) == BestGain([q \in 1..2 |-> pm[1][T[q] + 1][T[3 - q] + 1]], [b \in DOMAIN pb |-> [q \in 1..2 |-> ToldPair(m, pm[1], T, q, b - 1)]], pb)
MoreGain(m, pm, T, pb) == BestGain(<<>> \o Answer(pm, 1, T), <<>> \o [b \in DOMAIN pb |-> ToldMore(m, pm, T, b - 1)], pb)

(* ---- how alike two samples rank things ---- *)
Less(x, v) == Cardinality({i \in DOMAIN x : x[i] < v})
Same(x, v) == Cardinality({i \in DOMAIN x : x[i] = v})
Ranks(x) == [i \in DOMAIN x |-> 2 * Less(x, x[i]) + Same(x, x[i]) + 1]       \* twice the average rank
Co(x, y) == Len(x) * Sum([i \in DOMAIN x |-> x[i] * y[i]]) - Sum(x) * Sum(y)
Fine(d) == IF d < 200000 THEN 100 ELSE IF d < 20000000 THEN 10 ELSE 1
Corr(x, y) == LET d == Co(x, x) * Co(y, y)  k == Fine(d) IN (Co(x, y) * U * k) \div Sqrt(d * k * k)
CorrTol(x, y) == LET d == Co(x, x) * Co(y, y)  k == Fine(d) IN 20 + (2 * U) \div Sqrt(d * k * k)
Varied(x) == Co(x, x) > 0
Away(x, y) == Sum([i \in DOMAIN x |-> (x[i] - y[i]) * (x[i] - y[i])])
Shift(x, y) == Sum([i \in DOMAIN x |-> Abs(x[i] - y[i])])

SpearmanOk(x, y, g) == Near(g, Corr(Ranks(x), Ranks(y)), CorrTol(Ranks(x), Ranks(y)))
EpicOk(x, y, g) == g <= 0 /\ g >= -U - 1 /\ Near(2 * g * g, U * (U - Corr(x, y)), U * CorrTol(x, y) + 8 * Abs(g) + 8)
RhoOk(x, y, g) == g <= 0 /\ g >= -2 * U /\ Near(g * g, Away(x, y), 4 * Abs(g) + 4 * Shift(x, y) + 40)

(* ---- agreement about the answers to queries about pairs: thousandths of a natural logarithm ---- *)
Top(x, T) == IF x[T[1] + 1] >= x[T[2] + 1] THEN 1 ELSE 2
Told(pm, x, w, v, T) == LET b == Top(x[w], T) IN pm[v][T[b] + 1][T[3 - b] + 1]
Agreement(pm, x, w, v, Qs) ==
  LET S(a, b) == Sum([k \in DOMAIN Qs |-> Lg(Told(pm, x, a, b, Qs[k])) - Lg(U)]) IN ((S(w, v) + S(v, w)) * 693) \div 4096
AgreementTol(pm, x, w, v, Qs) == 20 + Sum([k \in DOMAIN Qs |-> 3 + 1000 \div Told(pm, x, w, v, Qs[k]) + 1000 \div Told(pm, x, v, w, Qs[k])])

(* ---- expected alignment after a rating: dens[x][w] is the density of rating x in sample w, in
   hundredths; the weights of the ratings add up to U ---- *)
OneRating(f, p) ==
  LET M == Len(p)  s == Sum(p)
      part == [w \in 1..M |-> (Sum([v \in 1..M |-> (f[w][v] * p[v]) \div 1000]) * p[w]) \div s]
  IN IF s = 0 THEN 0 ELSE Sum(part)
Rated(f, dens, weight) == Sum([x \in DOMAIN dens |-> OneRating(f, dens[x]) * weight[x]]) \div (1000 * Len(f))
===============================================================================
