------------------------------- MODULE Kernels -------------------------------
(* Kernel expressions: sums and products of five kinds of kernels.  An expression is a sequence in
   prefix form over "+", "*" and the leaves "R" (radial), "L" (linear), "P" (periodic), "Z" (radial,
   zero at one point), "O" (somebody's own, that only says its value at two points).  Coordinates are integers standing for halves, parameters integers standing for
   quarters, values are in millionths.                                                            *)
EXTENDS Fixed

SumSeq(f, n) == LET S[i \in 0..n] == IF i = 0 THEN 0 ELSE S[i - 1] + f[i] IN S[n]
Dist2(u, v) == SumSeq([i \in DOMAIN u |-> (u[i] - v[i]) * (u[i] - v[i])], Len(u))
Dist1(u, v) == SumSeq([i \in DOMAIN u |-> Abs(u[i] - v[i])], Len(u))

(* ---- values of the leaves, in millionths ---- *)
RadE(l, n) == ExpNeg(2 * ((n * 10000000) \div (l * l)))
Rad(s, l, u, v) == (s * s * RadE(l, Dist2(u, v))) \div 160
Lin(s, b, c, u, v) == b * b * 62500 + (s * s * SumSeq([i \in DOMAIN u |-> (2 * u[i] - c) * (2 * v[i] - c)], Len(u)) * 15625) \div 4
Per(s, l, p, u, v) == (s * s * ExpNeg((32 * Sin2(2 * Dist1(u, v), p)) \div (l * l))) \div 160
Zer(s, l, z, u, v) == (s * s * (RadE(l, Dist2(u, v)) - MulQ(RadE(l, Dist2(u, z)), RadE(l, Dist2(v, z))))) \div 160
Leaf(k, q, z, u, v) == CASE k = "R" -> Rad(q[1], q[2], u, v)
                         [] k = "L" -> Lin(q[1], q[2], q[3], u, v)
                         [] k = "P" -> Per(q[1], q[2], q[3], u, v)
                         [] k = "O" -> Lin(q[1], q[2], 0, u, v)
                         [] k = "Z" -> Zer(q[1], q[2], z, u, v)
Leaves(t) == SelectSeq(t, LAMBDA k : k \notin {"+", "*"})
Sizes == [R |-> 2, L |-> 3, P |-> 3, Z |-> 2, O |-> 2]

(* ---- values and gradients of expressions: v value, e bound on its error, g gradient (value, error) ---- *)
Scale(g, v, e) == [i \in DOMAIN g |-> <<Mul(g[i][1], v), MulErr(g[i][1], g[i][2], v, e)>>]
RECURSIVE Ev(_, _, _, _, _)
Ev(t, val, grad, i, k) ==
   IF t[i] \in {"+", "*"}
   THEN LET a == Ev(t, val, grad, i + 1, k)
            b == Ev(t, val, grad, a.i, a.k)
        IN IF t[i] = "+" THEN [v |-> Plus(a.v, b.v), e |-> a.e + b.e, g |-> a.g \o b.g, i |-> b.i, k |-> b.k]
           ELSE [v |-> Mul(a.v, b.v), e |-> MulErr(a.v, a.e, b.v, b.e),
                 g |-> Scale(a.g, b.v, b.e) \o Scale(b.g, a.v, a.e), i |-> b.i, k |-> b.k]
   ELSE [v |-> val[k], e |-> 2, g |-> [j \in DOMAIN grad[k] |-> <<grad[k][j], 2>>], i |-> i + 1, k |-> k + 1]
Value(t, val) == Ev(t, val, [k \in DOMAIN val |-> <<>>], 1, 1)
Gradient(t, val, grad) == Ev(t, val, grad, 1, 1).g
(* the recorded value x is the specified one (numbers too large to compute with are not judged) *)
Is(x, r) == ~IsNum(r.v) \/ Near(x, r.v, r.e + 2)
IsGrad(x, g) == Len(x) = Len(g) /\ \A i \in DOMAIN g : ~IsNum(g[i][1]) \/ Near(x[i], g[i][1], g[i][2] + 2)
=============================================================================
