----------------------------- MODULE SessionTrace -----------------------------
(* ev = "start": w (the values are w . x), mixed, perfect
   ev = "ask":   n, ncand, prev (already asked about), sel, ret, held
   ev = "answer": kind, m, val (what the user values), labels or ratings, ret
   ev = "add":   kind, items, labels, ratings, must (0: to be refused), ret, held
   ev = "reset", "predict": held                                                             *)
EXTENDS Session, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, h, s
V(c, name) == IF c THEN {} ELSE {name}
Next1(e) == CASE e.ev = "start" -> Empty
              [] e.ev = "add" -> IF e.refuse = 1 THEN h ELSE IF e.kind = "abs" THEN Rated(h, e.items, e.ratings) ELSE Compared(h, e.items, e.labels)
              [] e.ev = "reset" -> Empty
              [] OTHER -> h
Held(e, g) == V(e.held.pts = g.pts, "C20:points") \cup V(WellFormed(e.held), "C20:labels about no point")
              \cup V(Bag(Meaning(e.held)) = Bag(Meaning(g)), "C20:comparisons") \cup V(Bag(e.held.rats) = Bag(g.rats), "C20:ratings")
Top(val, w) == \A k \in DOMAIN val : val[k] <= val[w + 1]
Judge(e) ==
  CASE e.ev = "crash" -> {"crash"}
    [] e.ev = "start" -> {}
    [] e.ev = "ask" -> IF e.ret # "ok" THEN {"C20:asking raises"} ELSE
         Held(e, h) \cup V(QueryOk(e.sel, e.ncand), "C20:query") \cup V(\A k \in DOMAIN e.sel : e.sel[k] \notin {e.prev[j] : j \in DOMAIN e.prev}, "C20:asked again")
         \cup V(Len(e.sel) = e.n \/ (s.mixed = 1 /\ Len(e.sel) = 1), "C20:query size")
    [] e.ev = "answer" -> IF e.ret # "ok" THEN {"C20:answering raises"} ELSE
         (CASE e.kind = "choose" -> V(Choice(e.labels, e.m) /\ (s.perfect = 1 => Top(e.val, Winner(e.labels[1]))), "C20:choice")
           [] e.kind = "rank" -> V(Ranked(e.labels, e.m, e.val), "C20:ranking")
           [] e.kind = "abs" -> V(Len(e.ratings) = e.m /\ \A k \in DOMAIN e.ratings : e.ratings[k] \in 0..1000000, "C20:rating"))
    [] e.ev = "add" -> V((e.ret = "ok") = (e.refuse = 0), IF e.refuse = 1 THEN "C20:bad answer accepted" ELSE "C20:answer refused") \cup Held(e, Next1(e))
    [] e.ev = "reset" -> V(e.ret = "ok", "C20:raise") \cup Held(e, Empty)
    [] e.ev = "predict" -> V(e.ret = "ok", "C20:raise") \cup Held(e, h)
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l]  bad == Judge(e) IN
              /\ (bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS))
              /\ h' = Next1(e)
              /\ s' = IF e.ev = "start" THEN [mixed |-> e.mixed, perfect |-> e.perfect] ELSE s
           /\ l' = l + 1
TraceSpec == l = 1 /\ h = Empty /\ s = [mixed |-> 0, perfect |-> 0] /\ [][Consume]_<<l, h, s>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
