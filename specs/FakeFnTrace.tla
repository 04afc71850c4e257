----------------------------- MODULE FakeFnTrace -----------------------------
(* ev = "new": kind ("linear", "max", "min" or another name), w (millionths; <<>> if it has none)
   ev = "eval": pts, vals (in 1e-6), w, shape ok flag, args; ev = "parts" (a mix): vals, a, b, alpha *)
EXTENDS FakeFn, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, mem, w, kind
V(c, name) == IF c THEN {} ELSE {name}
Known == {"linear", "max", "min"}
Tol(p) == LET S[i \in 0..Len(p)] == IF i = 0 THEN 3 ELSE S[i - 1] + Abs(p[i]) IN S[Len(p)]
Judge(e) ==
  CASE e.ev = "crash" -> {"crash"}
    [] e.ev = "new" -> {}
    [] e.ev = "randomize" -> V(e.ret = "ok", "C21:raise")
    [] e.ev = "eval" ->
         V(e.ret = "ok", "C21:raise") \cup V(e.args = 1, "C21:args")
         \cup V(Len(e.vals) = Len(e.pts) /\ e.shape = 1, "C21:one per row")
         \cup V(e.w = w, "C21:weights")
         \cup (IF Len(e.vals) # Len(e.pts) THEN {} ELSE
               V(Consistent(mem, e.pts, e.vals, 2), "C21:same point")
               \cup V(kind \notin Known \/ \A i \in DOMAIN e.pts : Near(e.vals[i], Form(kind, w, e.pts[i]), Tol(e.pts[i])), "C21:form")
               \cup V(kind # "mix" \/ \A i \in DOMAIN e.pts : Abs(e.vals[i]) < 2000000 /\ Abs(e.a[i]) < 2000000 /\ Abs(e.b[i]) < 2000000 /\ Near(1000 * (e.vals[i] \div 1), e.alpha * e.a[i] + (1000 - e.alpha) * e.b[i], 3000), "C21:mix"))
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l]
                  bad == Judge(e) IN
              /\ (bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS))
              /\ IF e.ev \in {"new", "randomize"} THEN mem' = {} /\ w' = e.w ELSE
                 IF e.ev = "eval" /\ Len(e.vals) = Len(e.pts) THEN mem' = Remember(mem, e.pts, e.vals) /\ UNCHANGED w
                 ELSE UNCHANGED <<mem, w>>
              /\ kind' = IF e.ev = "new" THEN e.kind ELSE kind
           /\ l' = l + 1
TraceSpec == l = 1 /\ mem = {} /\ w = <<>> /\ kind = "" /\ [][Consume]_<<l, mem, w, kind>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
