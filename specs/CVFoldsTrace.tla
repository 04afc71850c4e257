----------------------------- MODULE CVFoldsTrace -----------------------------
(* ev = "fold": n, k, none (1: no folds were made), folds, args
   ev = "restrict": idx, pairs/ords/abss (given; empty when absent), rp/ro/ra (returned), args *)
EXTENDS CVFolds, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
V(c, name) == IF c THEN {} ELSE {name}
Judge(e) ==
  CASE e.ev = "crash" -> {"crash"}
    [] e.ev = "fold" ->
         V(e.ret = "ok", "C11:raise") \cup V(e.args = 1, "C11:args")
         \cup V((e.none = 1) <=> (Count(e.n, e.k) = 0), "C11:none")
         \cup (IF e.none = 1 \/ e.ret # "ok" \/ Count(e.n, e.k) = 0 THEN {}
               ELSE V(CCount(e.n, e.k, e.folds), "C11:count") \cup V(CPartition(e.n, e.folds), "C11:partition")
                    \cup V(CSize(e.n, e.k, e.folds), "C11:size"))
    [] e.ev = "restrict" ->
         V(e.ret = "ok", "C11:raise") \cup V(e.args = 1, "C11:args")
         \cup V(e.rp = RestrictPairs(e.pairs, e.idx), "C11:pairs")
         \cup V(e.ro = RestrictVals(e.ords, e.idx), "C11:ratings")
         \cup V(e.ra = RestrictVals(e.abss, e.idx), "C11:scores")
Consume == /\ l <= Len(Trace)
           /\ LET bad == Judge(Trace[l]) IN
              bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
           /\ l' = l + 1
TraceSpec == l = 1 /\ [][Consume]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
