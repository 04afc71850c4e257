------------------------------- MODULE Pareto -------------------------------
(* The Pareto front of a sequence of points (integer vectors of one length): the larger the better. *)
EXTENDS Integers, Sequences, FiniteSets

Rng(s) == {s[i] : i \in DOMAIN s}
Geq(a, b) == \A i \in DOMAIN a : a[i] >= b[i]
Beats(a, b) == Geq(a, b) /\ a # b

(* idx: the indices (from 0) reported for pts *)
CIndex(pts, idx) == \A i \in DOMAIN idx : idx[i] \in 0..(Len(pts) - 1)
CSound(pts, idx) == \A i \in DOMAIN idx : \A j \in DOMAIN pts : ~Beats(pts[j], pts[idx[i] + 1])
CCover(pts, idx) == \A j \in DOMAIN pts : \E i \in DOMAIN idx : Geq(pts[idx[i] + 1], pts[j])
COnce(pts, idx) == \A i, j \in DOMAIN idx : pts[idx[i] + 1] = pts[idx[j] + 1] => i = j
=============================================================================
