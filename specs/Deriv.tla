-------------------------------- MODULE Deriv --------------------------------
(* A derivative is the slope of the function it is the derivative of.  A function near a point is known
   from its change over a step up and a step down: changes in 1e-9, step 1e-3, derivatives in 1e-6.   *)
EXTENDS Fixed

Slope(up, down) == (up - down) \div 2
(* (a sharp bend leaves room: the step is not infinitely small) *)
SlopeOk(g, up, down) == ~IsNum(up) \/ ~IsNum(down) \/ ~IsNum(up - down) \/ ~IsNum(up + down) \/
                        (IsNum(g) /\ Abs(g - Slope(up, down)) <= 1500 + Abs(g) \div 100 + Abs(up + down) \div 300)
Slopes(g, up, down) == Len(g) = Len(up) /\ Len(g) = Len(down) /\ \A i \in DOMAIN g : SlopeOk(g[i], up[i], down[i])
SumOf(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE Plus(S[i - 1], s[i]) IN S[Len(s)]
Symmetric(W) == \A i, j \in DOMAIN W : Near(W[i][j], W[j][i], 2) \/ ~IsNum(W[i][j])
Diagonal(W) == \A i, j \in DOMAIN W : i # j => W[i][j] = 0
(* comparisons depend on differences only: moving every value together changes nothing *)
Balanced(g) == IsNum(SumOf(g)) => Abs(SumOf(g)) <= 2 * Len(g) + 2

(* ratings far from the value f: the breakpoints of lv ratings lie evenly between 0 and b, in units of
   1/4 as is the noise s; far out the slope of the log likelihood is the distance to the nearer end
   of the rating, and its own slope is -1 (in units of the noise; both recorded in 1/1000)           *)
Bp(b, lv, j) == (1000 * b * (j - 1)) \div (lv - 2)          \* thousandths of 1/4
Below(f, b, lv, s, r) == IF r = 1 THEN 0 ELSE (Bp(b, lv, r - 1) - 4000 * f) \div s      \* how far f lies below rating r, in 1/1000 of the noise
Above(f, b, lv, s, r) == IF r = lv THEN 0 ELSE (4000 * f - Bp(b, lv, r)) \div s
Faraway(f, b, lv, s, r) == Below(f, b, lv, s, r) >= 6800 \/ Above(f, b, lv, s, r) >= 6800
Pull(f, b, lv, s, r) == IF Below(f, b, lv, s, r) > 0 THEN Below(f, b, lv, s, r) ELSE -Above(f, b, lv, s, r)
FarOk(f, b, lv, s, r, g, w) ==
  LET d == Pull(f, b, lv, s, r) IN
  IsNum(g) /\ IsNum(w) /\ Abs(g - d) <= 10 + Abs(d) \div 1000 + 1000000 \div Abs(d) /\ Abs(w - 1000) <= 120
=============================================================================
