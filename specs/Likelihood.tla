------------------------------ MODULE Likelihood ------------------------------
(* Coherence of the likelihoods.  Probabilities are in units of 1/One, log values in 1e-5,
   latent values are integers.                                                            *)
EXTENDS Integers, Sequences, FiniteSets

One == 100000000
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == a <= 1000000000 /\ b <= 1000000000 /\ Abs(a - b) <= tol
Probs(t) == \A i \in DOMAIN t : \A j \in DOMAIN t[i] : t[i][j] >= -1 /\ t[i][j] <= One + 1
Logs(t) == \A i \in DOMAIN t : \A j \in DOMAIN t[i] : t[i][j] <= 1000000000
Sum(p) == LET S[i \in 0..Len(p)] == IF i = 0 THEN 0 ELSE S[i - 1] + p[i] IN S[Len(p)]
Inner(p) == p > 200 /\ p < One - 200       \* far enough from the ends to be strict

(* first[i][j]: probability that i is preferred (written i first, sign -1); second[i][j]: that j is
   (written i first, sign 1); table[i][j]: the table of all pairs *)
Complement(f, s) == \A i, j \in DOMAIN f : Near(f[i][j] + s[i][j], One, 2)
Turned(f, s) == \A i, j \in DOMAIN f : Near(f[i][j], s[j][i], 1)
Half(F, f) == \A i, j \in DOMAIN f : F[i] = F[j] => Near(f[i][j], One \div 2, 1)
Grows(F, f) == \A i, j, k, m \in DOMAIN f : F[i] - F[j] > F[k] - F[m] =>
                 (f[i][j] >= f[k][m] /\ (Inner(f[i][j]) \/ Inner(f[k][m]) => f[i][j] > f[k][m]))
(* ll[i][j]: the log of the probability that i is preferred (1/1000); numbers too large are not told apart *)
LogGrows(F, ll) == \A i, j, k, m \in DOMAIN F : F[i] - F[j] > F[k] - F[m] =>
                     (ll[i][j] >= ll[k][m] /\ (ll[k][m] < -1000 /\ ll[k][m] > -1000000000 => ll[i][j] > ll[k][m]))
Agrees(f, t) == \A i, j \in DOMAIN f : Near(f[i][j], t[i][j], 1)

(* rat[i][r]: the probability of rating r at value F[i] *)
AddUp(rat) == \A i \in DOMAIN rat : (\A r \in DOMAIN rat[i] : rat[i][r] >= -1) /\ Near(Sum(rat[i]), One, Len(rat[i]) + 2)
AtLeast(row, r) == Sum(SubSeq(row, r, Len(row)))
Favours(F, rat) == \A i, j \in DOMAIN F : F[i] > F[j] => \A r \in 2..Len(rat[i]) :
                      LET a == AtLeast(rat[i], r) b == AtLeast(rat[j], r)
                      IN a >= b - 8 /\ (Inner(a) /\ Inner(b) => a > b)

(* rl[i][r]: the log of the probability of rating r (1/1000): numbers, however far the value *)
RateLogs(F, rl, rat) ==
  /\ \A i \in DOMAIN rl : \A r \in DOMAIN rl[i] : rl[i][r] <= 0 /\ (rat[i][r] > 0 => rl[i][r] > -19200) /\ (rat[i][r] = 0 => rl[i][r] < -18000)
  /\ \A i, j \in DOMAIN rl : F[i] > F[j] =>
       LET n == Len(rl[i]) IN
       /\ rl[i][1] <= rl[j][1] /\ (rl[i][1] < -1000 /\ rl[j][1] > -1000000000 => rl[i][1] < rl[j][1])
       /\ rl[i][n] >= rl[j][n] /\ (rl[j][n] < -1000 /\ rl[j][n] > -1000000000 => rl[i][n] > rl[j][n])
(* with one number for the breakpoints they lie evenly between 0 and it (1/10): at[j], in 1/10000, where the
   ratings up to j are as likely as those above it *)
Evenly(b, lv, at, upto) == \A j \in 1..(lv - 1) : Abs(at[j] * (lv - 2) - 1000 * b * (j - 1)) <= lv /\ Near(upto[j], One \div 2, 20)

(* sc[i][k]: the log density of score k at value F[i]; scores in increasing order *)
FavoursScores(F, sc) == \A i, j \in DOMAIN F : F[i] > F[j] => \A k \in 1..(Len(sc[i]) - 1) :
                          sc[i][k + 1] - sc[i][k] >= sc[j][k + 1] - sc[j][k] - 3
Mirror(F, sc) == \A i, j \in DOMAIN F : F[i] = -F[j] => \A k \in DOMAIN sc[i] : Near(sc[i][k], sc[j][Len(sc[j]) + 1 - k], 3)

SumsUp(total, parts) == Near(total, Sum(parts), Len(parts) + 2 + Abs(total) \div 1000000)
=============================================================================
