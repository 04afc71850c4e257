------------------------------ MODULE SessionGen ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, CSV, IOUtils, Json
CONSTANTS Num, MinActs, MaxActs
VARIABLE c
Rnd(S) == RandomElement(S)
Now(s) == <<>> \o s
RECURSIVE Draw(_, _)
Draw(S, n) == IF n = 0 \/ S = {} THEN <<>> ELSE LET x == Rnd(S) IN <<x>> \o Draw(S \ {x}, n - 1)
Grid(d) == IF d = 1 THEN {<<a>> : a \in -4..8} ELSE IF d = 2 THEN {<<a, b>> : a \in -3..4, b \in -3..4} ELSE {<<a, b, x>> : a \in -1..3, b \in -1..3, x \in -1..3}
Round(d) == [op |-> Rnd({"choose", "choose", "choose", "rank", "rate", "bad", "show", "reset", "predict"}), cands |-> Draw(Grid(d), Rnd(4..9)), n |-> Rnd({2, 2, 2, 3, 4, 7}),
             bad |-> Rnd({-1, 0, 1, 2})]
Pgp == {"best", "worst", "ucb", "random", "gvucb", "mi", "acq", "acqsp", "absacq", "rate", "mixcmp", "fixed", "alt", "eqcheck", "align", "mixed", "decision", "decision2"}
Quick == {"best", "worst", "ucb", "random", "absacq", "rate", "fixed", "alt", "mixed", "decision"}   \* for long sessions
Mixed == {"absacq", "rate", "mixcmp", "fixed", "alt", "eqcheck", "align", "mixed", "decision", "decision2"}
Case(z) ==
  LET model == Rnd({"pgp", "pgp", "pgp", "plin"})
      d == IF model = "plin" THEN Rnd(2..3) ELSE Rnd(1..3)
      le == IF model = "plin" THEN Rnd({"best", "worst", "random"}) ELSE Rnd(IF MaxActs > 8 THEN Quick ELSE Pgp)
  IN [model |-> model, dim |-> d, learner |-> le, mixed |-> IF le \in Mixed THEN 1 ELSE 0, user |-> Rnd({"perfect", "human", "human2"}),
      w |-> Now([x \in 1..d |-> Rnd({-3, -2, -1, 1, 2, 3})]), pool |-> Rnd({0, 0, 1}), first |-> IF model = "plin" \/ le = "align" THEN 1 ELSE Rnd({0, 1}),
      poolc |-> Draw(Grid(d), 13), seed |-> Rnd(1..10000), acts |-> Now([k \in 1..Rnd(MinActs..MaxActs) |-> Round(d)])]
Init == c = 0
Next == /\ c < Num /\ c' = c + 1
        /\ \E x \in {Case(c)} : CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.OUT)
Spec == Init /\ [][Next]_c
=============================================================================
