---------------------------- MODULE SelectDesign ----------------------------
(* Every selection call over up to MaxN candidates: the steps satisfy the contract. *)
EXTENDS Select

CONSTANTS MaxN, Means
VARIABLE st

Init == \E n \in 1..MaxN : \E pv, p \in SUBSET (0..(n - 1)) : \E k \in 1..(n + 1) : \E a, r \in BOOLEAN :
          \E m \in [1..n -> Means] : \E md \in {"any", "best", "worst"} :
            st = Start([n |-> n, prev |-> pv, P |-> p, k |-> k, ab |-> a, rns |-> r, mu |-> m, mode |-> md,
                        crit |-> IF md = "worst" THEN [i \in 1..n |-> 0 - m[i]] ELSE m])

TakeBest == \E t \in DoTakeBest(st) : st' = t
TakePreferred == \E t \in DoTakePreferred(st) : st' = t
TakeOther == \E t \in DoTakeOther(st) : st' = t
TakeSkipped == \E t \in DoTakeSkipped(st) : st' = t
TakeGreedy == \E t \in DoTakeGreedy(st) : st' = t
Skip == \E t \in DoSkip(st) : st' = t
Fail == \E t \in DoFail(st) : st' = t
Finish == \E t \in DoFinish(st) : st' = t

Next == TakeBest \/ TakePreferred \/ TakeOther \/ TakeSkipped \/ TakeGreedy \/ Skip \/ Fail \/ Finish
Spec == Init /\ [][Next]_st

Over == st.out # "run"
FailsExactly == Over => CFail(st.q, st.out)
Complete == st.out = "ok" => CCount(st.q, st.sel)
Sound == CDistinct(st.sel) /\ CEligible(st.q, st.sel) /\ CPrefer(st.q, st.sel)
BestFirst == CBest(st.q, st.sel)
Skipped == CSkip(st.q, st.sel, st.skip)
NeverStuck == st.out = "run" => Steps(st) # {}
\* raising only the mean of a candidate that would be taken next keeps it the one taken
Raise(q, x) == [q EXCEPT !.mu = [q.mu EXCEPT ![x + 1] = @ + 1], !.crit = [q.crit EXCEPT ![x + 1] = @ + 1]]
Monotone == (st.q.mode = "best" /\ ~st.q.rns /\ Running(st) /\ RemP(st) # {}) =>
             \A x \in Pick(st.q, RemP(st)) : Pick(Raise(st.q, x), RemP(st)) = {x}
=============================================================================
