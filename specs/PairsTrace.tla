----------------------------- MODULE PairsTrace -----------------------------
(* ev = "choice": c, items, pairs; "reference": c, y, pairs; "ranking": y, pairs;
   "dk": u, v, d; "pref": u, v, pair; "scalar": what get_dk did with a vector *)
EXTENDS Pairs, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
V(c, name) == IF c THEN {} ELSE {name}
Judge(e) ==
  CASE e.ev = "crash" -> {"crash"}
    [] e.ev = "choice" -> V(e.ret = "ok" /\ FromChoice(e.pairs, e.c, Rng(e.items)), "C15:choice") \cup V(e.args = 1, "C15:args")
    [] e.ev = "reference" -> V(e.ret = "ok" /\ FromReference(e.pairs, e.c, e.y), "C15:reference") \cup V(e.args = 1, "C15:args")
    [] e.ev = "ranking" -> V(e.ret = "ok" /\ FromRanking(e.pairs, e.y), "C15:ranking") \cup V(e.args = 1, "C15:args")
    [] e.ev = "dk" -> V(e.ret = "ok" /\ Right(e.d, e.u, e.v), "C15:sign")
    [] e.ev = "pref" -> V(e.ret = "ok" /\ e.pair = <<-1, e.u, e.v>>, "C15:preference")
    [] e.ev = "scalar" -> V(e.ret = "raise", "C15:vector")
Consume == /\ l <= Len(Trace)
           /\ LET bad == Judge(Trace[l]) IN
              bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
           /\ l' = l + 1
TraceSpec == l = 1 /\ [][Consume]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
