--------------------------- MODULE LikelihoodTrace ---------------------------
(* ev = "pref": F, first, second, table; "ord": F, rat, low (what a rating of 0 did), rl (log likelihoods, 1/1000), b, lv, at, upto (the breakpoints, and how likely no higher rating is there); "logs": F, ll (log likelihoods, 1/1000)
   ev = "abs": F, sc; "sum": total, parts (log values, 1e-5), deriv (the total given with the derivatives) *)
EXTENDS Likelihood, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
V(c, name) == IF c THEN {} ELSE {name}
Judge(e) ==
  CASE e.ev = "crash" -> {"crash"}
    [] e.ret # "ok" -> {"C17:raise"}
    [] e.ev = "pref" /\ ~(Probs(e.first) /\ Probs(e.second) /\ Probs(e.table)) -> {"C17:not a probability"}
    [] e.ev = "ord" /\ ~Probs(e.rat) -> {"C17:not a probability"}
    [] e.ev = "abs" /\ ~Logs(e.sc) -> {"C17:not a number"}
    [] e.ev = "pref" -> V(e.args = 1, "C17:args")
         \cup V(Complement(e.first, e.second), "C17:add to one") \cup V(Turned(e.first, e.second), "C17:turned")
         \cup V(Half(e.F, e.first), "C17:equal items") \cup V(Grows(e.F, e.first), "C17:grows")
         \cup V(Agrees(e.first, e.table), "C17:table")
    [] e.ev = "logs" -> V(Logs(e.ll) /\ LogGrows(e.F, e.ll), "C17:log likelihood grows") \cup V(e.args = 1, "C17:args")
    [] e.ev = "ord" -> V(AddUp(e.rat), "C17:ratings add to one") \cup V(Favours(e.F, e.rat), "C17:favours ratings")
         \cup V(RateLogs(e.F, e.rl, e.rat), "C17:log likelihood of ratings") \cup V(e.at = <<>> \/ Evenly(e.b, e.lv, e.at, e.upto), "C17:evenly")
         \cup V(e.low = 1, "C17:rating 0") \cup V(e.args = 1, "C17:args")
    [] e.ev = "abs" -> V(FavoursScores(e.F, e.sc), "C17:favours scores") \cup V(Mirror(e.F, e.sc), "C17:mirror") \cup V(e.args = 1, "C17:args")
    [] e.ev = "sum" -> V(SumsUp(e.total, e.parts), "C17:sum") \cup V(e.deriv = e.total \/ Near(e.deriv, e.total, 3 + Abs(e.total) \div 1000000), "C17:derivatives")
Consume == /\ l <= Len(Trace)
           /\ LET bad == Judge(Trace[l]) IN
              bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
           /\ l' = l + 1
TraceSpec == l = 1 /\ [][Consume]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
