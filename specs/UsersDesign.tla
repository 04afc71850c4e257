----------------------------- MODULE UsersDesign -----------------------------
(* Users as machines: the perfect user answers with any best item; the noisy one with any item,
   with weight 2^(value) (a power of two stands for the exponential).                          *)
EXTENDS Users, TLC
CONSTANTS MaxN, Values, MaxQ
VARIABLES y, answer, noisy, hist
vars == <<y, answer, noisy, hist>>
W(v) == 2 ^ v
Total(q) == LET S[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE S[i - 1] + W(q[i]) IN S[Len(q)]
Prob(q) == [i \in DOMAIN q |-> (One \div Total(q)) * W(q[i])]
Init == y = <<>> /\ answer = -1 /\ noisy \in BOOLEAN /\ hist = {}
Ask == /\ y = <<>> /\ Cardinality(hist) < MaxQ
       /\ \E n \in 1..MaxN : \E q \in [1..n -> Values] : y' = q
       /\ answer' = -1 /\ UNCHANGED <<noisy, hist>>
Perfect == /\ y # <<>> /\ answer = -1 /\ ~noisy
           /\ \E c \in 0..(Len(y) - 1) : y[c + 1] = Max(y) /\ answer' = c
           /\ UNCHANGED <<y, noisy, hist>>
Noisy == /\ y # <<>> /\ answer = -1 /\ noisy
         /\ \E c \in 0..(Len(y) - 1) : W(y[c + 1]) > 0 /\ answer' = c
         /\ UNCHANGED <<y, noisy, hist>>
Close == /\ answer >= 0 /\ hist' = hist \cup {<<y, answer>>} /\ y' = <<>> /\ answer' = -1 /\ UNCHANGED noisy
Next == Ask \/ Perfect \/ Noisy \/ Close
Spec == Init /\ [][Next]_vars
(* the comparisons that say c was chosen *)
Say(n, c) == LET others == SelectSeq([i \in 1..n |-> i - 1], LAMBDA i : i # c) IN [k \in 1..(n - 1) |-> <<-1, c, others[k]>>]
Said == \A h \in hist : CGiven(Len(h[1]), Say(Len(h[1]), h[2])) /\ (noisy \/ CGivenBest(h[1], Say(Len(h[1]), h[2])))
AnswersFit == \A h \in hist : CInQuery(Len(h[1]), h[2]) /\ (noisy \/ CBest(h[1], h[2]))
Law == y = <<>> \/ (COrder(y, Prob(y)) /\ Abs(Sum(Prob(y)) - One) <= Total(y))
=============================================================================
