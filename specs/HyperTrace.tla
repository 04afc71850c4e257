----------------------------- MODULE HyperTrace -----------------------------
(* ev = "start": cfg, vals (the parts of the new model)
   ev = "hy": op, ret, x (written, or read), data (likelihoods that have data after the call), vals (the
        parts after it), again (what a read gives), probe / want (the values the parts give in use, and
        those given by new parts with the same parameters), len (number of parameters the kernel reports)
   op: "set", "get", "setget" (read and write back), "draw", "keep" (an operation that must not change
       the parameters), "kset", "kget", "kdraw" (the kernel's own), "poke" (the caller changes vectors it got) *)
EXTENDS Hyper, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, vals, cfg, data
V(c, name) == IF c THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : (a[i] = b[i] \/ (a[i] <= 1000000000 /\ b[i] <= 1000000000 /\ Abs(a[i] - b[i]) <= 2))
ToSet(s) == {s[i] : i \in DOMAIN s}
Judge(e) ==
  LET d == ToSet(e.data)
      lay == IF e.op \in {"kset", "kget", "kdraw"} THEN KernLayout(vals) ELSE Layout(cfg, d, vals)
  IN V(e.ret = "ok", "C14:raise") \cup V(e.kept = 1, "C14:data")
     \cup (IF e.ret # "ok" THEN {} ELSE
       CASE e.op \in {"set", "kset"} -> V(e.vals = Write(lay, vals, e.x), "C14:written elsewhere")
         [] e.op \in {"get", "kget"} -> V(e.x = Read(lay, vals), "C14:read") \cup V(e.vals = vals, "C14:changed")
         [] e.op = "draw" -> V(Drawn(lay, vals, e.vals), "C14:draw")
         [] e.op = "kdraw" -> V(Len(e.x) = Len(lay) /\ \A i \in DOMAIN e.x : e.x[i] > 0, "C14:draw") \cup V(e.vals = vals, "C14:changed")
         [] e.op = "optimize" -> V(\A p \in DOMAIN vals : \A i \in DOMAIN vals[p] : InLayout(lay, p, i) \/ e.vals[p][i] = vals[p][i], "C14:optimized others")
         [] OTHER -> V(e.vals = vals, "C14:changed"))
     \cup (IF e.ret # "ok" THEN {} ELSE
           V(e.again = Read(Layout(cfg, d, e.vals), e.vals), "C14:read")
           \cup V(e.op = "optimize" \/ Near(e.probe, e.want), "C14:in use") \cup V(e.len = Len(KernLayout(e.vals)), "C14:length"))
Report(bad) == bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
Consume == /\ l <= Len(Trace)
           /\ LET e == Trace[l] IN
              \/ e.ev = "start" /\ vals' = e.vals /\ cfg' = e.cfg /\ data' = {}
              \/ e.ev = "crash" /\ Report({"crash"}) /\ UNCHANGED <<vals, cfg, data>>
              \/ e.ev = "hy" /\ Report(Judge(e)) /\ vals' = e.vals /\ data' = ToSet(e.data) /\ UNCHANGED cfg
           /\ l' = l + 1
TraceSpec == l = 1 /\ vals = <<>> /\ cfg = <<>> /\ data = {} /\ [][Consume]_<<l, vals, cfg, data>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
