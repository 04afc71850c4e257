------------------------------- MODULE Select -------------------------------
(* One selection call of an active learner, as a small state machine over records.

   A query q:  n candidates 0..n-1, prev (already selected), P (preferred), k asked for,
               ab (always include the best), rns (also return the skipped points),
               mu (means), crit (the learner's own score of each candidate),
               mode "crit" (greedy by crit) or "any" (the learner's choice is not predicted)
   A state st: q, sel (sequence), skip (sequence), out ("run", "ok", "fail")               *)
EXTENDS Integers, Sequences, FiniteSets

All(q) == 0..(q.n - 1)
Elig(q) == All(q) \ q.prev
Rng(s) == {s[i] : i \in DOMAIN s}
At(f, x) == f[x + 1]
ArgMax(f, S) == {x \in S : \A y \in S : At(f, x) >= At(f, y)}
Pick(q, S) == IF q.mode = "any" THEN S ELSE ArgMax(q.crit, S)

Start(q) == [q |-> q, sel |-> <<>>, skip |-> <<>>, out |-> "run"]
Running(st) == st.out = "run" /\ Len(st.sel) < st.q.k
RemP(st) == (st.q.P \cap Elig(st.q)) \ Rng(st.sel)
RemE(st) == (Elig(st.q) \ Rng(st.sel)) \ Rng(st.skip)

Fresh(st) == st.sel = <<>> /\ st.skip = <<>>
WantsBest(st) == st.q.ab /\ st.q.prev = {} /\ Fresh(st)
BestFrom(q) == IF q.P \cap Elig(q) # {} THEN q.P \cap Elig(q) ELSE Elig(q)

Take(st, x) == [st EXCEPT !.sel = Append(@, x)]

(* ---- the steps, each a set of successors ---- *)
DoTakeBest(st) == IF Running(st) /\ WantsBest(st) /\ Elig(st.q) # {}
                  THEN {Take(st, x) : x \in ArgMax(st.q.mu, BestFrom(st.q))} ELSE {}
DoTakePreferred(st) == IF Running(st) /\ ~WantsBest(st) /\ ~st.q.rns /\ RemP(st) # {}
                       THEN {Take(st, x) : x \in Pick(st.q, RemP(st))} ELSE {}
DoTakeOther(st) == IF Running(st) /\ ~WantsBest(st) /\ ~st.q.rns /\ RemP(st) = {} /\ RemE(st) # {}
                   THEN {Take(st, x) : x \in Pick(st.q, RemE(st))} ELSE {}
DoTakeSkipped(st) == IF Running(st) /\ ~WantsBest(st) /\ st.q.rns /\ RemP(st) = {} /\ st.skip # <<>>
                     THEN {[Take(st, Head(st.skip)) EXCEPT !.skip = Tail(@)]} ELSE {}
Greedy(st) == Running(st) /\ ~WantsBest(st) /\ st.q.rns /\ RemE(st) # {} /\ ~(RemP(st) = {} /\ st.skip # <<>>)
DoTakeGreedy(st) == IF Greedy(st) THEN {Take(st, x) : x \in {y \in Pick(st.q, RemE(st)) : y \in RemP(st) \/ RemP(st) = {}}} ELSE {}
DoSkip(st) == IF Greedy(st) THEN {[st EXCEPT !.skip = Append(@, x)] : x \in {y \in Pick(st.q, RemE(st)) : y \notin RemP(st) /\ RemP(st) # {}}} ELSE {}
DoFail(st) == IF Running(st) /\ RemE(st) = {} /\ ~(st.q.rns /\ st.skip # <<>>) THEN {[st EXCEPT !.out = "fail"]} ELSE {}
DoFinish(st) == IF st.out = "run" /\ Len(st.sel) >= st.q.k THEN {[st EXCEPT !.out = "ok"]} ELSE {}

Steps(st) == DoTakeBest(st) \cup DoTakePreferred(st) \cup DoTakeOther(st) \cup DoTakeSkipped(st)
             \cup DoTakeGreedy(st) \cup DoSkip(st) \cup DoFail(st) \cup DoFinish(st)

RECURSIVE Outcomes(_)
Outcomes(st) == IF st.out # "run" THEN {st} ELSE UNION {Outcomes(t) : t \in Steps(st)}

(* ---- the contract: what the caller may rely on whatever the criterion ---- *)
Min2(a, b) == IF a < b THEN a ELSE b
Distinct(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j

CFail(q, out) == (out = "fail") <=> (Cardinality(Elig(q)) < q.k)
CCount(q, sel) == Len(sel) = q.k
CDistinct(sel) == Distinct(sel)
CEligible(q, sel) == Rng(sel) \subseteq Elig(q)
\* points outside the preferred set only after every eligible preferred one
CPrefer(q, sel) == \A i \in DOMAIN sel : sel[i] \notin q.P => (q.P \cap Elig(q)) \subseteq Rng(SubSeq(sel, 1, i - 1))
CBest(q, sel) == (q.ab /\ q.prev = {} /\ sel # <<>>) => sel[1] \in ArgMax(q.mu, BestFrom(q))
CSkip(q, sel, skip) == /\ Distinct(skip) /\ Rng(skip) \cap Rng(sel) = {}
                       /\ Rng(skip) \subseteq Elig(q) \ q.P /\ (~q.rns => skip = <<>>)

(* points nobody beats: at least as good everywhere and better somewhere *)
Beats(a, b) == (\A k \in DOMAIN a : a[k] >= b[k]) /\ (\E k \in DOMAIN a : a[k] > b[k])
NonDominated(pts) == {i \in 0..(Len(pts) - 1) : ~\E j \in DOMAIN pts : Beats(pts[j], pts[i + 1])}
=============================================================================
