------------------------------- MODULE Predict -------------------------------
(* Predictions: one point at a time, however many are asked for together (C18); and the posterior they
   are taken from, checked by certificates (C23).  Numbers are in millionths.                        *)
EXTENDS Fixed

(* ---- per point: ref[p] is what was predicted for point p alone, a call asks for the points idx ---- *)
Tol(x) == 5 + Abs(x) \div 100000
Same(a, b) == Near(a, b, Tol(a))
PerPoint(ref, idx, out) == Len(out) = Len(idx) /\ \A k \in DOMAIN idx : Same(ref[idx[k]], out[k])
NonNegative(v) == \A k \in DOMAIN v : v[k] >= 0 /\ IsNum(v[k])
(* the best is one of the points asked for, with a highest mean (two as good as equal may change places) *)
IsBest(ref, idx, b) == b \in 0..(Len(idx) - 1) /\ \A k \in DOMAIN idx : ref[idx[k]] <= ref[idx[b + 1]] + Tol(ref[idx[k]])

(* ---- linear algebra in fixed point: sums of products, and how far off they may be ---- *)
Dotp(a, b) == LET S[i \in 0..Len(a)] == IF i = 0 THEN 0 ELSE Plus(S[i - 1], Mul(a[i], b[i])) IN S[Len(a)]
Slack(a, b) == LET S[i \in 0..Len(a)] == IF i = 0 THEN 0 ELSE Plus(S[i - 1], MulErr(a[i], 1, b[i], 1)) IN S[Len(a)]
Times(M, v) == [i \in DOMAIN M |-> Dotp(M[i], v)]
Add(u, v) == [i \in DOMAIN u |-> Plus(u[i], v[i])]
Total(s, n) == LET S[i \in 0..Len(s)] == IF i = 0 THEN [k \in 1..n |-> 0] ELSE Add(S[i - 1], s[i]) IN S[Len(s)]
TotalM(s, n) == LET S[i \in 0..Len(s)] == IF i = 0 THEN [k \in 1..n |-> [j \in 1..n |-> 0]]
                                          ELSE [k \in 1..n |-> Add(S[i - 1][k], s[i][k])] IN S[Len(s)]
Close(x, y, tol) == ~IsNum(y) \/ Near(x, y, tol)
CloseAll(u, v, tol) == \A i \in DOMAIN u : Close(u[i], v[i], tol)

(* the mode: every latent value is the covariance times the slopes of the log likelihood there *)
AtMode(K, F, g) == \A i \in DOMAIN K : Close(F[i], Dotp(K[i], g), 100 + Slack(K[i], g))
(* the mean at a point with covariances k to the training points *)
Mean(mu, k, g, prior) == Close(mu, Plus(Dotp(k, g), prior), 100 + Slack(k, g))
(* z is a witness for (1 + W K) z = W k *)
Witness(W, K, z, k) == LET Kz == Times(K, z)
                           d == [i \in DOMAIN k |-> Plus(k[i], -Kz[i])]
                           off == <<>> \o [j \in DOMAIN d |-> Slack(K[j], z)]       \* how far off d may be
                       IN \A i \in DOMAIN z : Close(z[i], Dotp(W[i], d), 50 + Slack(W[i], d) + 6 * Abs(Dotp(W[i], [j \in DOMAIN d |-> 10])) + Dotp([j \in DOMAIN d |-> Abs(W[i][j])], off))
(* z is a witness for (K + noise) z = k *)
Solves(K, z, k) == \A i \in DOMAIN z : Close(k[i], Dotp(K[i], z), 50 + Slack(K[i], z))
(* covariance of two points: prior minus what the training points explain *)
Cov(c, prior, k, z) == Close(c, Plus(prior, -Dotp(k, z)), 2000 + Abs(prior) \div 200)
Var(v, prior, k, z) == LET c == Plus(prior, -Dotp(k, z)) IN Close(v, IF c < 0 THEN 0 ELSE c, 2000 + Abs(prior) \div 200) /\ v >= 0
=============================================================================
