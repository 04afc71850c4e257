------------------------------- MODULE Sampler -------------------------------
(* Sampling of query sets, and the Metropolis-Hastings chain.

   Chain: a state is an integer id (0: the starting point); lls maps the id + 1 to a level.
   Impossible is the level of an impossible state.  When sharp, levels that differ, differ so much
   that a move to a lower one has no chance; otherwise one level is a factor of e^(1/4).      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Rng(s) == {s[i] : i \in DOMAIN s}
Impossible == -9

Moves(cur, prop) == prop # Impossible /\ prop >= cur

(* the chain that makes the given proposals: the sequence of states after each step *)
Chain(lls, props) ==
   FoldLeft(LAMBDA acc, p : LET cur == IF acc = <<>> THEN 0 ELSE acc[Len(acc)]
                            IN Append(acc, IF Moves(lls[cur + 1], lls[p + 1]) THEN p ELSE cur), <<>>, props)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Samples(lls, props, burn) == Drop(Chain(lls, props), burn)

(* what one step may do: a proposal that is no less likely is taken, an impossible one never *)
Legal(sharp, lls, cur, p, n) ==
   LET a == lls[cur + 1]  b == lls[p + 1]
   IN CASE b = Impossible -> n = cur
        [] b >= a -> n = p
        [] OTHER -> n = cur \/ (n = p /\ sharp = 0)
(* e^(-d/4), in 1/10000, for d = 1..20 *)
Chance == <<7788, 6065, 4724, 3679, 2865, 2231, 1738, 1353, 1054, 821, 639, 498, 388, 302, 235, 183, 143, 111, 87, 67>>

(* query sets *)
CSetCount(sets, num) == Len(sets) = num
CSetSize(sets, size) == \A i \in DOMAIN sets : Len(sets[i]) = size /\ Cardinality(Rng(sets[i])) = size
CSetMembers(sets, s) == \A i \in DOMAIN sets : Rng(sets[i]) \subseteq s
CSetDistinct(sets) == Cardinality({Rng(sets[i]) : i \in DOMAIN sets}) = Len(sets)
=============================================================================
