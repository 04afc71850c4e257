----------------------------- MODULE UsersTrace -----------------------------
(* ev = "probs": y, p, batch (the same row computed in a batch), zero (noise so high that all are equal)
   ev = "choose": y, c, best (1: the perfect user); ev = "freq": a, n, p (per cent)
   ev = "rates": y, r, mono (0: noisy; 1: never falls; 2: rises), ev = "tuned": got, want (per mille), tol *)
EXTENDS Users, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
V(c, name) == IF c THEN {} ELSE {name}
Judge(e) ==
  CASE e.ev = "crash" -> {"crash"}
    [] e.ret # "ok" -> {"C16:raise"}
    [] e.ev = "probs" -> V(Len(e.p) = Len(e.y) /\ CDist(e.p), "C16:distribution") \cup V(e.args = 1, "C16:args")
                         \cup V(Len(e.p) # Len(e.y) \/ COrder(e.y, e.p), "C16:order")
                         \cup V(CSameRow(e.p, e.batch), "C16:own query")
                         \cup V(e.zero = 0 \/ CUniform(e.p), "C16:uniform")
    [] e.ev = "choose" -> V(CInQuery(Len(e.y), e.c), "C16:item") \cup V(e.args = 1, "C16:args")
                          \cup V(e.best = 0 \/ ~CInQuery(Len(e.y), e.c) \/ CBest(e.y, e.c), "C16:perfect")
    [] e.ev = "given" -> V(CGiven(Len(e.y), e.pairs), "C16:comparisons") \cup V(e.args = 1, "C16:args")
                         \cup V(e.best = 0 \/ CGivenBest(e.y, e.pairs), "C16:perfect")
    [] e.ev = "freq" -> V(CFreq(e.a, e.n, e.p), "C16:frequency")
    [] e.ev = "rates" -> V(\A i \in DOMAIN e.r : CRating(e.r[i]), "C16:rating") \cup V(e.args = 1, "C16:args")
                         \cup V(e.mono = 0 \/ CRateOrder(e.y, e.r, e.mono = 2), "C16:rating order")
    [] e.ev = "tuned" -> V(Abs(e.got - e.want) <= e.tol, "C16:tuned") \cup V(e.args = 1, "C16:args")
Consume == /\ l <= Len(Trace)
           /\ LET bad == Judge(Trace[l]) IN
              bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
           /\ l' = l + 1
TraceSpec == l = 1 /\ [][Consume]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
