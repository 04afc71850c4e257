----------------------------- MODULE EstimatesGen -----------------------------
(* Behaviours: Kind "same" gives evidence described in several ways, Kind "order" evidence about items
   far apart, Kind "linear" comparisons that some weights satisfy.                                                                                       *)
EXTENDS Estimates, TLC, CSV, IOUtils, Json
CONSTANTS Kind, Num
VARIABLE c
Rnd(S) == RandomElement(S)
Now(s) == <<>> \o s       \* draws the elements of a sequence once
RECURSIVE Draw(_)
Draw(S) == IF S = {} THEN <<>> ELSE LET x == Rnd(S) IN <<x>> \o Draw(S \ {x})
Perm(n) == Draw(1..n)
Shuffle(s) == LET p == Perm(Len(s)) IN [k \in DOMAIN s |-> s[p[k]]]
TurnSome(s) == Now([k \in DOMAIN s |-> IF Rnd({1, 2}) = 1 THEN s[k] ELSE <<-s[k][1], s[k][3], s[k][2]>>])
(* the same block with its points in another order *)
Renumber(b) == LET m == Len(b.X)  p == Perm(m)
                   inv == [i \in 1..m |-> CHOOSE q \in 1..m : p[q] = i]
               IN [kind |-> b.kind, X |-> [k \in 1..m |-> b.X[p[k]]],
                   L |-> IF b.kind = "pref" THEN [k \in DOMAIN b.L |-> <<b.L[k][1], inv[b.L[k][2] + 1] - 1, inv[b.L[k][3] + 1] - 1>>]
                         ELSE [k \in 1..m |-> b.L[p[k]]]]
Reword(b) == IF b.kind = "pref" THEN [b EXCEPT !.L = Shuffle(TurnSome(b.L))] ELSE b
Join(a, b) == [kind |-> a.kind, X |-> a.X \o b.X,
               L |-> a.L \o (IF a.kind = "pref" THEN [k \in DOMAIN b.L |-> <<b.L[k][1], b.L[k][2] + Len(a.X), b.L[k][3] + Len(a.X)>>] ELSE b.L)]
RECURSIVE Joined(_)
Joined(s) == IF Len(s) <= 1 THEN s ELSE
             IF s[1].kind = s[2].kind THEN Joined(<<Join(s[1], s[2])>> \o SubSeq(s, 3, Len(s)))
             ELSE <<s[1]>> \o Joined(Tail(s))
Mirror(b) == IF b.kind = "pref" THEN [b EXCEPT !.L = Now([k \in DOMAIN b.L |-> IF Rnd({1, 2}) = 1 THEN <<-b.L[k][1], b.L[k][2], b.L[k][3]>> ELSE <<b.L[k][1], b.L[k][3], b.L[k][2]>>])] ELSE b
Map(f(_), s) == Now([k \in DOMAIN s |-> f(s[k])])

Cmp(m) == LET u == Rnd(0..(m - 1)) IN <<Rnd({-1, 1}), u, Rnd((0..(m - 1)) \ {u})>>
Both(s) == s \o [k \in DOMAIN s |-> <<-s[k][1], s[k][2], s[k][3]>>]
Block(kind, from, m, model, many) ==
  [kind |-> kind, X |-> [i \in 1..m |-> from + i],
   L |-> CASE kind = "pref" -> LET s == Now([k \in 1..(IF many = 1 THEN Rnd(25..40) ELSE Rnd(1..3)) |-> Cmp(m)]) IN IF model = "plin" THEN Both(s) ELSE s
           [] kind = "ord" -> Now([i \in 1..m |-> Rnd(1..5)])
           [] kind = "abs" -> Now([i \in 1..m |-> Rnd({1000, 50000, 200000, 350000, 500000, 700000, 930000, 999000})])
           [] kind = "val" -> LET one == Rnd({0, 20, 100})  each == Rnd({1, 2}) IN Now([i \in 1..m |-> <<Rnd(-3000..3000), IF each = 1 THEN one ELSE Rnd({10, 50, 300})>>])]
RECURSIVE Blocks(_, _, _, _)
Blocks(kinds, from, model, many) == IF kinds = <<>> THEN <<>> ELSE
   LET m == IF kinds[1] = "pref" THEN Rnd(2..(3 + 2 * many)) ELSE Rnd(1..(2 + 2 * many)) IN <<Block(kinds[1], from, m, model, many)>> \o Blocks(Tail(kinds), from + m, model, many)
Dim(model) == IF model = "plin" THEN 2 ELSE Rnd({1, 2, 2, 3})
Same(model, kinds, d) ==
  LET bl == Blocks(kinds, 0, model, IF Rnd(1..16) = 1 THEN 1 ELSE 0)     \* now and then many labels
      npts == Len(Points(bl))
      base == Joined(bl)
      onlyp == \A k \in DOMAIN kinds : kinds[k] = "pref"
  IN [model |-> model, kern |-> Rnd({"R", "R", "RL", "RP", "R2"}), dim |-> d, meanf |-> Rnd({0, 1}),
      at |-> Now([p \in 1..npts |-> Now([x \in 1..d |-> Rnd(-3..5)])]), far |-> 0,
      descs |-> <<base, bl, Map(Reword, base), Map(Renumber, base), Joined(Map(Renumber, Shuffle(Map(Reword, bl)))), Map(Reword, Map(Renumber, Shuffle(bl)))>>
                \o (IF onlyp THEN <<Map(Mirror, base), Map(Mirror, Map(Renumber, bl))>> ELSE <<>>),
      mirror |-> <<0, 0, 0, 0, 0, 0>> \o (IF onlyp THEN <<1, 1>> ELSE <<>>), loc |-> [p \in 1..npts |-> p], items |-> npts]
PgpKinds == {<<"pref">>, <<"pref", "pref">>, <<"pref", "pref", "pref">>, <<"ord", "pref">>, <<"ord", "ord", "pref", "pref">>, <<"abs", "abs">>,
             <<"abs", "pref", "pref">>, <<"ord", "abs">>, <<"pref", "pref", "ord", "ord", "abs", "abs">>, <<"ord", "ord">>}
SameCase(z) == LET m == Rnd({"pgp", "pgp", "pgp", "plin", "gp"}) IN
            Same(m, CASE m = "pgp" -> Rnd(PgpKinds) [] m = "plin" -> Rnd({<<"pref", "pref">>, <<"pref", "pref", "pref">>, <<"ord", "pref", "pref">>})
                      [] m = "gp" -> Rnd({<<"val", "val">>, <<"val", "val", "val">>}), Dim(m))

(* items 20 apart; every addition holds each item once *)
All(kind, k, n, m) == [kind |-> kind, X |-> [i \in 1..n |-> (k - 1) * n + i],
   L |-> CASE kind = "pref" -> Now([j \in 1..m |-> Cmp(n)])
           [] kind = "ord" -> Now([i \in 1..n |-> Rnd(1..5)])
           [] kind = "abs" -> Now([i \in 1..n |-> Rnd({1000, 50000, 200000, 350000, 500000, 700000, 930000, 999000})])
           [] kind = "val" -> Now([i \in 1..n |-> <<Rnd(-3000..3000), 0>>])]
Again(b) == [b EXCEPT !.L = Both(b.L) \o Now([k \in 1..Rnd(0..3) |-> b.L[Rnd(DOMAIN b.L)]])]
Order(model, kinds, n, d) ==
  LET adds == Now([k \in DOMAIN kinds |-> LET b == All(kinds[k], k, n, Rnd(IF Rnd(1..20) = 1 THEN 40..70 ELSE IF model = "plin" THEN {3, 4, 5} ELSE {1, 1, 2, 3, 4, 6})) IN IF model = "plin" THEN Again(b) ELSE b])
      npts == n * Len(kinds)
      loc == [p \in 1..npts |-> ((p - 1) % n) + 1]
      items == 1..n
  IN [model |-> model, kern |-> Rnd({"R", "R2"}), dim |-> d, far |-> 1, at |-> [p \in 1..npts |-> [x \in 1..d |-> IF model # "plin" THEN 20 * (loc[p] - x) ELSE IF loc[p] = x THEN 2 ELSE 0]],
      descs |-> <<adds>>, mirror |-> <<0>>, loc |-> loc, items |-> n,
      better |-> Cardinality({q \in items \X items : Better(Tokens(adds), Points(adds), loc, items, q[1], q[2])}),
      alike |-> Cardinality({q \in items \X items : q[1] < q[2] /\ Alike(Tokens(adds), Points(adds), loc, items, q[1], q[2])})]
OrderKinds == {<<"pref">>, <<"pref">>, <<"ord">>, <<"abs">>, <<"ord", "ord">>, <<"abs", "abs">>, <<"pref", "ord">>, <<"pref", "abs">>, <<"ord", "pref">>, <<"abs", "ord">>,
               <<"pref", "ord", "abs">>}
OrderCase(z) == LET m == Rnd({"pgp", "pgp", "pgp", "pgp", "gp", "plin"})  n == Rnd(2..4) IN
             Order(m, IF m = "pgp" THEN Rnd(OrderKinds) ELSE IF m = "plin" THEN <<"pref">> ELSE Rnd({<<"val">>, <<"val", "val">>}), n,
                   IF m = "plin" THEN n ELSE Rnd(1..2))
(* comparisons that some weights satisfy, for the linear model *)
RECURSIVE Told(_, _, _)
Told(at, w, m) == IF m = 0 THEN <<>> ELSE
  LET u == Rnd(DOMAIN at)  v == Rnd(DOMAIN at)  d == Dot(w, at[u]) - Dot(w, at[v])
  IN (IF d = 0 THEN <<>> ELSE IF Rnd({1, 2}) = 1 THEN <<<<IF d > 0 THEN -1 ELSE 1, u - 1, v - 1>>>> ELSE <<<<IF d > 0 THEN 1 ELSE -1, v - 1, u - 1>>>>) \o Told(at, w, m - 1)
(* many comparisons of points in pairs close to each other *)
RECURSIVE AllTold(_, _, _, _)
AllTold(at, w, u, v) == IF u > Len(at) THEN <<>> ELSE IF v > Len(at) THEN AllTold(at, w, u + 1, u + 2) ELSE
  LET d == Dot(w, at[u]) - Dot(w, at[v]) IN
  (IF d = 0 THEN <<>> ELSE <<<<IF d > 0 THEN -1 ELSE 1, u - 1, v - 1>>>>) \o AllTold(at, w, u, v + 1)
CloseCase(z) ==
  LET d == Rnd(2..4)  n == Rnd(3..7)
      w == Now([x \in 1..d |-> Rnd(-9..9)])
      one == Now([p \in 1..n |-> Now([x \in 1..d |-> Rnd(-100..100)])])
      two == Now([p \in 1..n |-> Now([x \in 1..d |-> one[p][x] + Rnd(-8..8)])])
      at == Now([p \in 1..(2 * n) |-> IF p % 2 = 1 THEN one[(p + 1) \div 2] ELSE two[p \div 2]])
  IN [model |-> "plin", kern |-> "R", dim |-> d, far |-> 2, at |-> at, w |-> w, unit |-> Rnd({1, 1, 2, 20}), div |-> 50, loc |-> [p \in 1..(2 * n) |-> p], items |-> 2 * n,
      mirror |-> <<0>>, descs |-> <<<<[kind |-> "pref", X |-> [p \in 1..(2 * n) |-> p], L |-> AllTold(at, w, 1, 2)]>>>>]
LinearCase(z) == IF Rnd(1..3) = 1 THEN CloseCase(z) ELSE
  LET d == Rnd(2..4)  n == Rnd(2..6)
      w == Now([x \in 1..d |-> Rnd(-3..3)])
      at == Now([p \in 1..n |-> Now([x \in 1..d |-> Rnd(-3..5)])])
      L == Told(at, w, Rnd(1..7))
  IN [model |-> "plin", kern |-> "R", dim |-> d, far |-> 2, at |-> at, w |-> w, unit |-> Rnd({1, 1, 2, 20}), div |-> 1, loc |-> [p \in 1..n |-> p], items |-> n,
      mirror |-> <<0>>, descs |-> <<<<[kind |-> "pref", X |-> [p \in 1..n |-> p], L |-> L]>>>>]
Init == c = 0
Next == /\ c < Num /\ c' = c + 1
        /\ \E x \in {IF Kind = "same" THEN SameCase(c) ELSE IF Kind = "linear" THEN LinearCase(c) ELSE OrderCase(c)} : CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Spec == Init /\ [][Next]_c
=============================================================================
