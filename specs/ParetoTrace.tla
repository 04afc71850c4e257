----------------------------- MODULE ParetoTrace -----------------------------
(* ev = "front": pts, idx (list form), mask (0/1 per point), args *)
EXTENDS Pareto, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
V(c, name) == IF c THEN {} ELSE {name}
Judge(e) ==
  CASE e.ev = "crash" -> {"crash"}
    [] e.ev = "front" ->
       V(e.ret = "ok", "C13:raise") \cup V(e.args = 1, "C13:args")
       \cup (IF e.ret # "ok" THEN {} ELSE
             V(CIndex(e.pts, e.idx), "C13:index")
             \cup (IF ~CIndex(e.pts, e.idx) THEN {} ELSE
                   V(CSound(e.pts, e.idx), "C13:sound") \cup V(CCover(e.pts, e.idx), "C13:cover") \cup V(COnce(e.pts, e.idx), "C13:once"))
             \cup V(/\ Len(e.mask) = Len(e.pts)
                    /\ {i \in 0..(Len(e.pts) - 1) : e.mask[i + 1] = 1} = Rng(e.idx), "C13:mask"))
Consume == /\ l <= Len(Trace)
           /\ LET bad == Judge(Trace[l]) IN
              bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
           /\ l' = l + 1
TraceSpec == l = 1 /\ [][Consume]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
