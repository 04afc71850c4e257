----------------------------- MODULE MixedTrace -----------------------------
(* ev = "new": c (parameters).  ev = "attach".  ev = "call": the scripted inputs, ret, sel (what was
   returned), subs: the calls the strategy made to its learners, each [who, num, cand, ret, prev, pref]
   ("pair", "abs"), cand: identity of this call's candidates, scored: identity of the candidates each
   compared score was computed for ([] if none).                                                   *)
EXTENDS Mixed, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, m
V(b, name) == IF b THEN {} ELSE {name}

Input(e) == [u |-> e.u, sp |-> e.sp, sa |-> e.sa, same |-> e.same = 1, similar |-> e.similar = 1]
By(e, w) == {j \in DOMAIN e.subs : e.subs[j].who = w}
\* the returned selection is that learner's answer of this call, asked for the right number of these candidates
From(e, w) == \E j \in By(e, w) : e.subs[j].ret = e.sel
Clean(e, w) == \A j \in By(e, w) : /\ e.subs[j].num = (IF w = "pair" THEN e.k ELSE 1)
                                   /\ e.subs[j].cand = e.cand /\ e.subs[j].opts = 1
Judge(e) ==
  IF e.ev = "crash" THEN {"crash"}
  ELSE IF e.ev \in {"new", "attach"} THEN V(e.ev # "attach" \/ e.ret = "ok", "C09:attach")
  ELSE IF e.ret # "ok" THEN {"C09:raise"}
  ELSE LET ch == Choice(c, m, Input(e)) IN
       V(\E w \in ch : From(e, w), "C09:choice")
       \cup V(\A w \in {"pair", "abs"} : Clean(e, w), "C09:asked")
       \cup V(~NeedsScores(c, m) \/ \A j \in DOMAIN e.scored : e.scored[j] = e.cand, "C09:stale")
       \cup V(c.kind # "align" \/ (m.calls < c.lim /\ e.rs = <<>>) \/ (m.calls >= c.lim /\ e.rs = <<e.sa, e.sp>>), "C09:scores")

Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l]
                  bad == Judge(e) IN
              /\ bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
              /\ IF e.ev = "new" THEN c' = e.c /\ m' = New
                 ELSE IF e.ev = "attach" THEN m' = New /\ UNCHANGED c
                 ELSE IF e.ev = "call" THEN m' = After(c, m, Input(e)) /\ UNCHANGED c
                 ELSE UNCHANGED <<c, m>>
           /\ l' = l + 1
TraceSpec == l = 1 /\ c = [kind |-> "none"] /\ m = New /\ [][Consume]_<<l, c, m>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
