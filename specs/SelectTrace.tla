----------------------------- MODULE SelectTrace -----------------------------
(* Judges recorded selection calls and the greedy choices made inside them.

   ev = "select": n, prev, pk/ps/pts (how the preferred points were given), k (already capped by the
                  learner's own maximum), ab, rns, mu, crit, mode, ret, sel, skip, args
   ev = "greedy": one greedy choice: offered (indices), got, crit, score (the reported score), scored *)
EXTENDS Select, TLC, Json, IOUtils, CSV

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

V(c, name) == IF c THEN {} ELSE {name}
S(s) == Rng(s)

Preferred(e) == CASE e.pk \in {"none", "zero", "over"} -> 0..(e.n - 1)
                  [] e.pk \in {"list", "set", "count"} -> S(e.ps)
                  [] e.pk \in {"pareto", "dpareto"} -> NonDominated(e.pts)

Query(e) == [n |-> e.n, prev |-> S(e.prev), P |-> Preferred(e), k |-> e.k, ab |-> e.ab = 1, rns |-> e.rns = 1,
             mu |-> e.mu, crit |-> e.crit, mode |-> e.mode]

Judge(e) ==
  IF e.ev = "crash" THEN {"crash"}
  ELSE IF e.ev = "greedy" THEN
       V(e.got \in S(e.offered), "C07:offered")
       \cup V(e.got \notin S(e.offered) \/ e.got \in ArgMax(e.crit, S(e.offered)), "C08:choice")
       \cup V(e.got \notin S(e.offered) \/ e.score = At(e.crit, e.got), "C08:score")
  ELSE LET q == Query(e)
           out == IF e.ret = "ok" THEN "ok" ELSE "fail"
       IN V(CFail(q, out), "C07:fails") \cup V(e.args = 1, "C10:args")
          \cup (IF out = "fail" THEN {}
                ELSE V(CCount(q, e.sel), "C07:count") \cup V(CDistinct(e.sel), "C07:distinct")
                     \cup V(CEligible(q, e.sel), "C07:eligible") \cup V(CPrefer(q, e.sel), "C07:prefer")
                     \cup V(CBest(q, e.sel), "C07:best") \cup V(CSkip(q, e.sel, e.skip), "C07:skipped")
                     \cup V(q.mode = "any" \/ e.n > 5 \/ ~CFail(q, out) \/
                            \E t \in Outcomes(Start(q)) : t.out = "ok" /\ t.sel = e.sel /\ t.skip = e.skip, "C08:order"))

Consume == /\ l <= Len(Trace)
           /\ LET bad == Judge(Trace[l]) IN
              bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
           /\ l' = l + 1
TraceSpec == l = 1 /\ [][Consume]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
