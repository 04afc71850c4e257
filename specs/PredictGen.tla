------------------------------ MODULE PredictGen ------------------------------
(* Behaviours: a history of additions, points to ask about, and calls asking for them together. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, IOUtils, Json
CONSTANTS Num, Kind
VARIABLE c
Rnd(S) == RandomElement(S)
Now(s) == <<>> \o s
Pt(d) == Now([x \in 1..d |-> Rnd(-3..5)])
Pts(n, d) == Now([i \in 1..n |-> Pt(d)])
Cmp(m) == LET u == Rnd(0..(m - 1)) IN <<Rnd({-1, 1}), u, Rnd((0..(m - 1)) \ {u})>>
Label(kind, m) == CASE kind = "pref" -> Now([k \in 1..Rnd(1..4) |-> Cmp(m)])
                    [] kind = "ord" -> Now([i \in 1..m |-> Rnd(1..5)])
                    [] kind = "abs" -> Now([i \in 1..m |-> Rnd({1000, 50000, 200000, 350000, 500000, 700000, 930000, 999000})])
                    [] kind = "val" -> Now([i \in 1..m |-> Rnd(-3000..3000)])
Adds(kinds, d) == Now([k \in DOMAIN kinds |-> LET m == IF kinds[k] = "pref" THEN Rnd(2..3) ELSE Rnd(1..2) IN
                     [kind |-> kinds[k], X |-> Pts(m, d), L |-> Label(kinds[k], m), noise |-> Rnd({0, 0, 1, 2})]])
(* a larger addition: up to ten points, a dozen comparisons *)
Large(kind, d) == LET m == Rnd(6..10) IN [kind |-> kind, X |-> Pts(m, d), noise |-> Rnd({0, 0, 1, 2}),
                     L |-> IF kind = "pref" THEN Now([k \in 1..(IF Rnd(1..4) = 1 THEN Rnd(50..70) ELSE Rnd(6..12)) |-> Cmp(m)]) ELSE Label(kind, m)]
KindsOf(model) == CASE model = "pgp" -> Rnd({<<"pref">>, <<"pref", "pref">>, <<"ord">>, <<"abs">>, <<"ord", "pref">>, <<"pref", "abs">>, <<"ord", "abs">>, <<"pref", "ord", "abs">>})
                    [] model = "plin" -> Rnd({<<"pref">>, <<"pref", "pref">>, <<"ord", "pref">>})
                    [] model = "gp" -> Rnd({<<"val">>, <<"val", "val">>, <<"val", "val", "val">>})
                    [] OTHER -> <<>>
Flat(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE S[i - 1] \o s[i] IN S[Len(s)]
Train(adds) == Flat([k \in DOMAIN adds |-> adds[k].X])
(* asking for exactly the training points together is a case of its own *)
Parts(idx, n) == {SubSeq(idx, lo, IF lo + n - 1 < Len(idx) THEN lo + n - 1 ELSE Len(idx)) : lo \in {k \in DOMAIN idx : (k - 1) % n = 0}}
Whole(adds, Q, calls) == Len(adds) > 0 /\ \E k \in DOMAIN calls : \E p \in Parts(calls[k].idx, 15) \cup {calls[k].idx} : [i \in DOMAIN p |-> Q[p[i]]] = Train(adds)
(* now and then a point far from everything else *)
AnyPt(d) == IF Rnd(1..3) = 1 THEN Now([x \in 1..d |-> Rnd({-14, 12, 13, 15})]) ELSE Pt(d)
(* drawn, or runs of one point after another *)
Idx(nq, len) == LET runs == Rnd(1..3)  up == Rnd({0, 1}) IN
  IF runs = 1 THEN Now([k \in 1..len |-> LET i == 1 + ((k - 1) * nq) \div len IN IF up = 1 THEN i ELSE nq + 1 - i])
  ELSE Now([k \in 1..len |-> Rnd(1..nq)])
Calls(nq) == Now([k \in 1..4 |-> [how |-> <<"predict", "large", Rnd({"call", "large", "best"}), "best">>[k],
                              idx |-> Idx(nq, Rnd(IF Rnd(1..10) = 1 THEN 66..140 ELSE {1, 2, 3, 5, 13, 14, 15, 16, 17, 29, 30, 31, 44, 45, 46}))]])
Case(z) ==
  LET model == Rnd({"pgp", "pgp", "plin", "gp", "simple"})
      d == IF model = "plin" THEN Rnd(2..3) ELSE Rnd(1..3)
      none == model \in {"pgp", "gp"} /\ Rnd(1..5) = 1
      adds == IF none THEN <<>> ELSE Adds(KindsOf(model), d)
      nq == Rnd(1..8)
      Q == Now([i \in 1..nq |-> IF Len(adds) > 0 /\ Rnd(1..3) = 1 THEN Rnd({Train(adds)[j] : j \in DOMAIN Train(adds)}) ELSE AnyPt(d)])
      calls == Calls(nq)
      alone == [p \in 1..nq |-> [idx |-> <<p>>]]
  IN [model |-> model, kern |-> Rnd({"R", "R2", "RL", "RP"}), dim |-> d, meanf |-> Rnd({0, 1}), adds |-> adds, Q |-> Q, calls |-> calls, reuse |-> Rnd({0, 0, 1}),
      key |-> IF model \in {"pgp", "gp"} /\ Whole(adds, Q, calls \o alone) THEN "the training points" ELSE ""]
(* exactly the training points, in their order *)
WholeCase(z) ==
  LET model == Rnd({"pgp", "gp"})  d == Rnd(1..2)  adds == Adds(KindsOf(model), d)  T == Train(adds)
  IN [model |-> model, kern |-> "R", dim |-> d, meanf |-> 0, reuse |-> 0, adds |-> adds, Q |-> T, calls |-> <<[how |-> "predict", idx |-> [k \in DOMAIN T |-> k]]>>, key |-> "the training points"]
LaplaceCase(z) ==
  LET model == Rnd({"pgp", "pgp", "pgp", "gp", "plin"})
      d == IF model = "plin" THEN 2 ELSE Rnd(1..3)
      search == IF model = "pgp" /\ Rnd(1..10) = 1 THEN Rnd({1, 2}) ELSE 0      \* search for hyperparameters first
      \* (many points of several dimensions need not have a positive covariance by the periodic kernel)
      large == search = 0 /\ Rnd(1..6) = 1
      adds == IF large THEN LET ks == KindsOf(model) IN Now([k \in DOMAIN ks |-> Large(ks[k], d)]) ELSE Adds(IF search > 0 THEN Rnd({<<"pref", "pref">>, <<"pref", "abs", "pref">>, <<"pref", "pref", "abs">>}) ELSE KindsOf(model), d)
  IN [model |-> model, kern |-> IF large /\ d > 1 THEN Rnd({"R", "R2", "RL"}) ELSE Rnd({"R", "R2", "RL", "RP"}), dim |-> d, meanf |-> Rnd({0, 1}), coarse |-> IF model = "pgp" THEN Rnd({0, 0, 1, 2}) ELSE 0,
      search |-> search, adds |-> adds, Q |-> Pts(3, d), calls |-> <<>>, key |-> ""]
Init == c = 0
Next == /\ c < Num /\ c' = c + 1
        /\ \E x \in {CASE Kind = "batch" -> Case(c) [] Kind = "whole" -> WholeCase(c) [] OTHER -> LaplaceCase(c)} : CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Spec == Init /\ [][Next]_c
=============================================================================
