------------------------------ MODULE Estimates ------------------------------
(* Evidence about points, independent of how it was described.
   A description is a sequence of additions [kind, X, L]: X lists the points added (by identity), L the
   labels.  For "pref" a label is <<sign, u, v>> with u, v positions in X counted from 0, sign -1 when
   the first is better.  For "ord", "abs" and "val" the k-th label belongs to the k-th point; a "val" label
   is <<value, how uncertain it is>>.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a) <= 1000000000 /\ Abs(b) <= 1000000000 /\ Abs(a - b) <= tol
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Count(s, s[k]) = Count(t, s[k])

Tokens1(a) == [k \in DOMAIN a.L |->
   IF a.kind = "pref" THEN LET t == a.L[k] IN
        IF t[1] < 0 THEN <<"pref", a.X[t[2] + 1], a.X[t[3] + 1]>> ELSE <<"pref", a.X[t[3] + 1], a.X[t[2] + 1]>>
   ELSE <<a.kind, a.X[k], a.L[k]>>]
Flat(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE S[i - 1] \o s[i] IN S[Len(s)]
Tokens(d) == Flat([i \in DOMAIN d |-> Tokens1(d[i])])
Points(d) == Flat([i \in DOMAIN d |-> d[i].X])
SameEvidence(d, e) == SameBag(Tokens(d), Tokens(e)) /\ SameBag(Points(d), Points(e))
Opposite(t) == IF t[1] = "pref" THEN <<"pref", t[3], t[2]>> ELSE t
ReversedEvidence(d, e) == SameBag(Tokens(d), [k \in DOMAIN Tokens(e) |-> Opposite(Tokens(e)[k])]) /\ SameBag(Points(d), Points(e))

(* ---- evidence in favour of items; loc[p] is the item that point p is ---- *)
Beats(T, loc, i, k) == Cardinality({n \in DOMAIN T : T[n][1] = "pref" /\ loc[T[n][2]] = i /\ loc[T[n][3]] = k})
Given(T, loc, kind, i) == SelectSeq(T, LAMBDA t : t[1] = kind /\ t[1] # "pref" /\ loc[t[2]] = i)
(* as many labels, and for every threshold at least as many at or above it *)
Size(t) == IF t[1] = "val" THEN t[3][1] ELSE t[3]
Above(G, v) == Cardinality({n \in DOMAIN G : Size(G[n]) >= v})
RatedNoLower(G, H) == Len(G) = Len(H) /\ \A n \in DOMAIN H : Above(G, Size(H[n])) >= Above(H, Size(H[n]))
Kinds == {"ord", "abs", "val"}
Copies(P, loc, i) == Cardinality({n \in DOMAIN P : loc[P[n]] = i})
AtLeast(T, P, loc, items, i, j) ==
  /\ Copies(P, loc, i) = Copies(P, loc, j)
  /\ \A k \in items \ {i, j} : Beats(T, loc, i, k) >= Beats(T, loc, j, k) /\ Beats(T, loc, k, i) <= Beats(T, loc, k, j)
  /\ Beats(T, loc, i, j) >= Beats(T, loc, j, i)
  /\ \A kind \in Kinds : RatedNoLower(Given(T, loc, kind, i), Given(T, loc, kind, j))
Better(T, P, loc, items, i, j) == i # j /\ AtLeast(T, P, loc, items, i, j) /\ ~AtLeast(T, P, loc, items, j, i)
Alike(T, P, loc, items, i, j) == AtLeast(T, P, loc, items, i, j) /\ AtLeast(T, P, loc, items, j, i)
(* the law: est gives each item's estimate *)
(* (far from the others, a win or loss that was expected anyway tells next to nothing: then the estimate is just not lower) *)
Far(items, est, i) == \E k \in items : Abs(est[i] - est[k]) > 2200000
Ordered(T, P, loc, items, est, margin) ==
  \A i, j \in items : Better(T, P, loc, items, i, j) => est[i] > est[j] + (IF Far(items, est, i) THEN -margin ELSE margin)
Equal(T, P, loc, items, est, tol) == \A i, j \in items : Alike(T, P, loc, items, i, j) => Near(est[i], est[j], tol)

(* ---- where the linear model, which has no prior, has one best fit: every comparison is also
   contradicted, and the compared differences span the plane ---- *)
Contradicted(T) == \A k \in DOMAIN T : T[k][1] = "pref" => \E m \in DOMAIN T : T[m] = Opposite(T[k])
(* comparisons that weights w satisfy, and estimates that do *)
Dot(w, x) == LET S[i \in 0..Len(w)] == IF i = 0 THEN 0 ELSE S[i - 1] + w[i] * x[i] IN S[Len(w)]
Satisfied(T, at, w) == \A k \in DOMAIN T : T[k][1] = "pref" => Dot(w, at[T[k][2]]) > Dot(w, at[T[k][3]])
Agree(T, est) == \A k \in DOMAIN T : T[k][1] = "pref" => est[T[k][2]] > est[T[k][3]]
(* with one weight per item: every item is compared, through others, above and below every other *)
RECURSIVE Reach(_, _, _)
Reach(T, loc, S) == LET more == {loc[T[k][3]] : k \in {n \in DOMAIN T : T[n][1] = "pref" /\ loc[T[n][2]] \in S}} IN
                    IF more \subseteq S THEN S ELSE Reach(T, loc, S \cup more)
Connected(T, loc, items) == \A i \in items : Reach(T, loc, {i}) = items
Cross(a, b, c, d) == (b[1] - a[1]) * (d[2] - c[2]) - (b[2] - a[2]) * (d[1] - c[1])
Spanning(T, at) == \E k, m \in DOMAIN T : T[k][1] = "pref" /\ T[m][1] = "pref" /\ Cross(at[T[k][2]], at[T[k][3]], at[T[m][2]], at[T[m][3]]) # 0
=============================================================================
