---------------------------- MODULE KernelsDesign ----------------------------
(* Expressions are grown one operator at a time from two leaves' tables of values over a small set of
   points; every value is an integer number of units, so that the laws hold exactly.  Gradients are
   taken with respect to the leaves themselves, in which every expression of different leaves is
   multilinear: the gradient is then exactly the difference made by a unit step.                   *)
EXTENDS Kernels, TLC
CONSTANTS MaxLeaves, Vals
VARIABLES t, val, lens
vars == <<t, val, lens>>
One == [k \in DOMAIN val |-> <<1000000>>]
Init == t = <<"R">> /\ \E v \in Vals : val = <<v * 1000000>> /\ lens = 1
(* join the expression with a new leaf, on either side, or with two joined leaves *)
Right == /\ Len(val) < MaxLeaves /\ \E op \in {"+", "*"} : \E v \in Vals :
              t' = <<op>> \o t \o <<"R">> /\ val' = Append(val, v * 1000000) /\ lens' = lens + 1
Left == /\ Len(val) < MaxLeaves /\ \E op \in {"+", "*"} : \E v \in Vals :
              t' = <<op, "R">> \o t /\ val' = <<v * 1000000>> \o val /\ lens' = lens + 1
Pair == /\ Len(val) + 1 < MaxLeaves /\ \E op, op2 \in {"+", "*"} : \E v, w \in Vals :
              t' = <<op>> \o t \o <<op2, "R", "R">> /\ val' = val \o <<v * 1000000, w * 1000000>> /\ lens' = lens + 2
Next == Right \/ Left \/ Pair
Spec == Init /\ [][Next]_vars
V == Value(t, val)
G == Gradient(t, val, One)
Parsed == V.i = Len(t) + 1 /\ V.k = Len(val) + 1
OneEach == Len(G) = lens
Slope == \A k \in DOMAIN val : G[k][1] = Value(t, [val EXCEPT ![k] = @ + 1000000]).v - V.v
SumOrProduct == Len(t) > 1 /\ t[2] = "R" => LET rest == Value(SubSeq(t, 3, Len(t)), Tail(val)).v
                  IN V.v = IF t[1] = "+" THEN val[1] + rest ELSE (val[1] \div 1000) * (rest \div 1000)
(* the leaves themselves, over all pairs of a small grid *)
Pts == {0, 1, 3} \X {0, 2}
Z0 == <<0, 0>>
Shapes == \A s \in {1, 4, 6} : \A l \in {2, 4, 5} : \A u, v \in Pts :
   /\ Near(Rad(s, l, u, v), Rad(s, l, v, u), 0) /\ Near(Rad(s, l, u, u), s * s * 62500, 0) /\ Rad(s, l, u, v) >= 0
   /\ (\A w \in Pts : Dist2(u, v) < Dist2(u, w) => Rad(s, l, u, v) >= Rad(s, l, u, w))
   /\ Near(Zer(s, l, Z0, u, Z0), 0, 10) /\ Zer(s, l, Z0, u, u) >= -10 /\ Zer(s, l, Z0, u, v) = Zer(s, l, Z0, v, u)
   /\ Near(Per(s, l, 4, u, <<u[1] + 2, u[2]>>), s * s * 62500, 1) /\ Per(s, l, 6, u, v) = Per(s, l, 6, v, u)
   /\ Per(s, l, 8, u, v) <= s * s * 62500
   /\ Lin(s, l, 2, u, v) = Lin(s, l, 2, v, u) /\ Lin(s, l, 2, u, <<1, 1>>) = l * l * 62500
(* e^-x: falls, halves at ln 2, and turns sums into products *)
ExpLaws == \A a \in 0..40 : LET x == a * 250000 IN
   /\ ExpNeg(x) > ExpNeg(x + 250000) /\ Near(ExpNeg(x), MulQ(ExpNeg(x \div 2), ExpNeg(x - (x \div 2))), 20)
   /\ Near(2 * ExpNeg(x + 6931472), ExpNeg(x), 30)
ASSUME ExpLaws
ASSUME Shapes
=============================================================================
