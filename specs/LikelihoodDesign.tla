--------------------------- MODULE LikelihoodDesign ---------------------------
(* A Thurstone model with a finite symmetric noise (each of Noise equally likely, ties split) and
   a threshold rating model: probabilities by counting, labels added one at a time.            *)
EXTENDS Likelihood, TLC
CONSTANTS Values, Noise, Cuts, MaxLabels
VARIABLES F, labels, ll
vars == <<F, labels, ll>>
NN == Cardinality(Noise)
Cnt(P(_)) == Cardinality({e \in Noise : P(e)})
(* twice the number of noise values that make i better (a tie counts one) *)
Pref(d) == 2 * Cardinality({e \in Noise : d + e > 0}) + Cardinality({e \in Noise : d + e = 0})
Pf == [i \in DOMAIN F |-> [j \in DOMAIN F |-> (One \div (2 * NN)) * Pref(F[i] - F[j])]]
Ps == [i \in DOMAIN F |-> [j \in DOMAIN F |-> (One \div (2 * NN)) * Pref(F[j] - F[i])]]
Rate(v, r) == Cardinality({e \in Noise : /\ (r = 1 \/ v + e > Cuts[r - 1]) /\ (r = Len(Cuts) + 1 \/ v + e <= Cuts[r])})
Rat == [i \in DOMAIN F |-> [r \in 1..(Len(Cuts) + 1) |-> (One \div NN) * Rate(F[i], r)]]
Init == F \in [1..3 -> Values] /\ labels = <<>> /\ ll = 0
(* log likelihoods stand as counts (a monotone stand-in): only the bookkeeping of the sum is at stake *)
Prefer == \E i, j \in DOMAIN F : i # j /\ labels' = Append(labels, Pref(F[i] - F[j])) /\ ll' = ll + Pref(F[i] - F[j])
Rating == \E i \in DOMAIN F : \E r \in 1..(Len(Cuts) + 1) : labels' = Append(labels, Rate(F[i], r)) /\ ll' = ll + Rate(F[i], r)
Next == Len(labels) < MaxLabels /\ (Prefer \/ Rating) /\ UNCHANGED F
Spec == Init /\ [][Next]_vars
PrefLaws == Complement(Pf, Ps) /\ Turned(Pf, Ps) /\ Half(F, Pf)
Weak == \A i, j, k, m \in DOMAIN F : F[i] - F[j] >= F[k] - F[m] => Pf[i][j] >= Pf[k][m]
RateLaws == AddUp(Rat) /\ \A i, j \in DOMAIN F : F[i] > F[j] => \A r \in 2..(Len(Cuts) + 1) : AtLeast(Rat[i], r) >= AtLeast(Rat[j], r)
SumLaw == SumsUp(ll, labels)
CutsV == <<-1, 0, 2>>
NoiseV == {-2, -1, 0, 1, 2}
Values3 == {0, 1, 3}
Values4 == {-2, 0, 1, 3}
=============================================================================
