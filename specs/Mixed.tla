-------------------------------- MODULE Mixed --------------------------------
(* How each mixed strategy decides between a comparison query ("pair") and a rating query ("abs").

   Memory m: calls since the model was attached, mode (only the "decision" strategies use it).
   One call i: u (the random draw, millionths), sp / sa (score of the comparison / of the rating),
               same (the proposed points share a coordinate), similar (their sampled values do not differ)
   Parameters c: kind, p (probability, millionths), step (exponent step of the schedule in units of -0.2),
               al (weight of the rating score, thousandths), lim (calls before the score is used)    *)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"rate", "mixcmp", "eqcheck", "fixed", "alt", "align", "mixed", "peak", "peak2", "peak3", "rev", "decision", "decision2"}
New == [calls |-> 0, mode |-> "draw"]

\* exp(-0.2 j) in millionths
ExpT == <<818731, 670320, 548812, 449329, 367879, 301194, 246597, 201897, 165299, 135335, 110803, 90718, 74274, 60810,
          49787, 40762, 33373, 27324, 22371, 18316, 14996, 12277, 10052, 8230, 6738, 5517, 4517, 3698,
          3028, 2479, 2029, 1662, 1360, 1114, 912, 747, 611, 500, 410, 335, 275, 225,
          184, 151, 123, 101, 83, 68, 55, 45, 37, 30, 25, 20, 17, 14,
          11, 9, 8, 6, 5, 4, 3, 3, 2, 2, 2, 1, 1, 1>>
Exp(j) == IF j = 0 THEN 1000000 ELSE IF j > Len(ExpT) THEN 0 ELSE ExpT[j]
Pct(n) == n * 10000

Start3(n, later) == CASE n = 0 -> Pct(10) [] n = 1 -> Pct(50) [] n = 2 -> Pct(90) [] OTHER -> later

\* probability of a rating at the n-th call (n from 0), in millionths
Prob(c, n) ==
  CASE c.kind = "mixed" -> c.p
    [] c.kind = "peak"  -> Start3(n, (8 * Exp(n - 2)) \div 10 + Pct(10))
    [] c.kind = "peak2" -> Start3(n, (9 * Exp(n - 2)) \div 10)
    [] c.kind \in {"peak3", "decision"} -> Start3(n, (9 * Exp(c.step * (n - 2))) \div 10)
    [] c.kind \in {"rev", "decision2"} -> IF n = 0 THEN Pct(90) ELSE IF n = 1 THEN Pct(10) ELSE c.p

Abs(x) == IF x < 0 THEN -x ELSE x
Draw(i, p) == {IF i.u <= p THEN "abs" ELSE "pair"}
Larger(a, b) == IF a > b THEN {"pair"} ELSE IF a < b THEN {"abs"} ELSE {"pair", "abs"}

\* the decision strategies compare the scores at these calls
Decides(m) == m.calls \in {5, 10, 15} \/ m.mode = "score"
\* one score is more than twice the other
FarApart(i) == Abs(i.sp) > 2 * Abs(i.sa) \/ Abs(i.sa) > 2 * Abs(i.sp)

Choice(c, m, i) ==
  CASE c.kind = "rate"    -> Larger(i.sp, i.sa)
    [] c.kind = "mixcmp"  -> Larger((1000 - c.al) * i.sp, c.al * i.sa)
    [] c.kind = "eqcheck" -> IF i.same /\ i.similar THEN {"abs"} ELSE Larger(i.sp, i.sa)
    [] c.kind = "fixed"   -> {IF m.calls > 7 THEN "pair" ELSE "abs"}
    [] c.kind = "alt"     -> {IF m.calls % 2 = 0 THEN "pair" ELSE "abs"}
    [] c.kind = "align"   -> IF m.calls < c.lim THEN {IF m.calls % 2 = 0 THEN "pair" ELSE "abs"}
                             ELSE {IF i.sp > i.sa THEN "pair" ELSE "abs"}
    [] c.kind \in {"mixed", "peak", "peak2", "peak3", "rev"} -> Draw(i, Prob(c, m.calls))
    [] c.kind \in {"decision", "decision2"} ->
         IF Decides(m) THEN (IF FarApart(i) THEN Larger(i.sp, i.sa) ELSE Draw(i, Prob(c, m.calls)))
         ELSE CASE m.mode = "draw" -> Draw(i, Prob(c, m.calls))
                [] m.mode = "abs"  -> Draw(i, Pct(95))
                [] m.mode = "pair" -> Draw(i, Pct(5))

After(c, m, i) ==
  [calls |-> m.calls + 1,
   mode |-> IF c.kind \in {"decision", "decision2"} /\ Decides(m)
            THEN (IF FarApart(i) THEN (IF i.sp > i.sa THEN "pair" ELSE "abs") ELSE "draw")
            ELSE m.mode]

\* must the scores have been computed in this call?
NeedsScores(c, m) == c.kind \in {"rate", "mixcmp", "eqcheck"} \/ (c.kind \in {"decision", "decision2"} /\ Decides(m))
=============================================================================
