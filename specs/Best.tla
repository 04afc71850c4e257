--------------------------------- MODULE Best ---------------------------------
(* How likely each candidate is the best of all, and the probabilities it is made of: that normal
   variables are all below 0.  Probabilities are whole numbers of 1/U; means are in quarters, and
   variances and covariances whole numbers.                                                         *)
EXTENDS Integers, Sequences, FiniteSets

U == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Near(a, b, tol) == Abs(a) <= 1000000000 /\ Abs(b) <= 1000000000 /\ Abs(a - b) <= tol
Sum(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE S[i - 1] + s[i] IN S[Len(s)]
Mult(a, b) == (a * b + U \div 2) \div U
Prod(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN U ELSE Mult(S[i - 1], s[i]) IN S[Len(s)]
Chance(p) == p >= 0 /\ p <= U

(* ---- the normal distribution at q quarters ---- *)
Phis == <<5000, 5987, 6915, 7734, 8413, 8944, 9332, 9599, 9772, 9878, 9938, 9970, 9987, 9994, 9998, 9999, 10000>>
Phi(q) == IF q >= 0 THEN Phis[Min2(q, 16) + 1] ELSE U - Phis[Min2(-q, 16) + 1]
Roots == 1..64
IsSquare(v) == \E r \in Roots : r * r = v
Root(v) == CHOOSE r \in Roots : r * r = v
(* mean m and variance v: the chance of being below 0, where the table has it *)
Exact(m, v) == IsSquare(v) /\ m % Root(v) = 0
Below0(m, v) == Phi((-m) \div Root(v))

(* ---- all variables below 0 ---- *)
Diag(C) == \A i, j \in DOMAIN C : i # j => C[i][j] = 0
Exacts(mu, C) == \A i \in DOMAIN mu : Exact(mu[i], C[i][i])
Apart(mu, C) == Prod([i \in DOMAIN mu |-> Below0(mu[i], C[i][i])])
(* twice the correlation, where it is a whole number *)
Twice(C, i, j) == LET s == Root(C[i][i]) * Root(C[j][j]) IN (2 * C[i][j]) \div s
Halves(C) == \A i, j \in DOMAIN C : IsSquare(C[i][i]) /\ IsSquare(C[j][j]) /\ (2 * C[i][j]) % (Root(C[i][i]) * Root(C[j][j])) = 0 /\ (i = j \/ Abs(Twice(C, i, j)) <= 1)
Zero(mu) == \A i \in DOMAIN mu : mu[i] = 0
(* the share of the space in which two, or three, centred variables are all below 0 *)
Orthant(C) == CASE Len(C) = 1 -> U \div 2
                [] Len(C) = 2 -> (U * (3 + Twice(C, 1, 2))) \div 12
                [] Len(C) = 3 -> (U * (3 + Twice(C, 1, 2) + Twice(C, 1, 3) + Twice(C, 2, 3))) \div 24
(* pairs that depend on each other and nothing else *)
Partners(C, i) == {j \in DOMAIN C : j # i /\ C[i][j] # 0}
Paired(C) == \A i \in DOMAIN C : Cardinality(Partners(C, i)) <= 1
InPairs(mu, C) == Prod([i \in DOMAIN mu |->
   IF Partners(C, i) = {} THEN Below0(mu[i], C[i][i]) ELSE
   LET j == CHOOSE j \in Partners(C, i) : TRUE IN IF j < i THEN U ELSE (U * (3 + Twice(C, i, j))) \div 12])
PairsCentred(mu, C) == \A i \in DOMAIN mu : Partners(C, i) # {} => mu[i] = 0
(* whatever they have to do with each other *)
Most(mu, C) == LET S[i \in 0..Len(mu)] == IF i = 0 THEN U ELSE Min2(S[i - 1], Below0(mu[i], C[i][i])) IN S[Len(mu)]
Least(mu, C) == Max2(0, Sum([i \in DOMAIN mu |-> Below0(mu[i], C[i][i])]) - (Len(mu) - 1) * U)

(* ---- the best of several ---- *)
Spread(C, i, j) == C[i][i] + C[j][j] - 2 * C[i][j]
Ahead(mu, C, i, j) == Below0(mu[j] - mu[i], Spread(C, i, j))
AllExact(mu, C) == \A i, j \in DOMAIN mu : i = j \/ Exact(mu[j] - mu[i], Spread(C, i, j))
Shares(s) == LET t == Sum(s) IN [i \in DOMAIN s |-> IF t = 0 THEN 0 ELSE (s[i] * U) \div t]
Rivals(mu, i) == SelectSeq([j \in DOMAIN mu |-> j], LAMBDA j : j # i)
OneByOne(mu, C) == Shares([i \in DOMAIN mu |-> Prod([k \in 1..(Len(mu) - 1) |-> Ahead(mu, C, i, Rivals(mu, i)[k])])])
Alike(mu, C, i, j) == mu[i] = mu[j] /\ C[i][i] = C[j][j] /\ \A k \in DOMAIN mu : k = i \/ k = j \/ C[i][k] = C[j][k]

Adds(p) == (\A i \in DOMAIN p : Chance(p[i])) /\ Near(Sum(p), U, Len(p) + 1)
Same(p, q, tol) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Near(p[i], q[i], tol)
Moved(p, q, turn, tol) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Near(q[i], p[turn[i]], tol)
(* candidate k gained *)
Raised(p, q, k, tol) == q[k] >= p[k] - tol
NoneElse(p, q, k, tol) == \A i \in DOMAIN p : i # k => q[i] <= p[i] + tol
===============================================================================
