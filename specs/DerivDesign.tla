----------------------------- MODULE DerivDesign -----------------------------
(* A walk along a polynomial: at each step the derivative there is recorded and summed.  For a quadratic
   the central slope is the derivative, and the sum of the slopes is the change of value.              *)
EXTENDS Deriv, TLC
CONSTANTS Coef, Steps
VARIABLES a, b, c, x, acc
vars == <<a, b, c, x, acc>>
F(y) == (a * y * y * 1000) + (b * y * 1000) + c
D(y) == 2 * a * y + b                       \* per 1000
Init == a \in Coef /\ b \in Coef /\ c \in Coef /\ x = 0 /\ acc = 0
Forward == x < Steps /\ x' = x + 1 /\ acc' = acc + (D(x) + D(x + 1)) * 500 /\ UNCHANGED <<a, b, c>>
Back == x > -Steps /\ x' = x - 1 /\ acc' = acc - (D(x) + D(x - 1)) * 500 /\ UNCHANGED <<a, b, c>>
Next == Forward \/ Back
Spec == Init /\ [][Next]_vars
CentralIsDerivative == Slope(F(x + 1) - F(x), F(x - 1) - F(x)) = 1000 * D(x)
Accepts == SlopeOk(1000 * D(x), F(x + 1) - F(x), F(x - 1) - F(x))
Refuses == Abs(D(x)) > 3 => ~SlopeOk(1500 * D(x), F(x + 1) - F(x), F(x - 1) - F(x)) /\ ~SlopeOk(-1000 * D(x), F(x + 1) - F(x), F(x - 1) - F(x))
Sums == acc = F(x) - F(0)
Coefs == {-3, -1, 0, 1, 2}
=============================================================================
