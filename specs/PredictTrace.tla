----------------------------- MODULE PredictTrace -----------------------------
(* ev = "calls": refmu, refvar (each point alone; no variances: empty), calls: ret, how, idx, mu, var, best
   ev = "laplace": coarse (the fit was told to stop early: the estimates need not be the mode), alpha (witness), n, grads and Ws (one per kind of label), K, F, q: for each point asked, mu, var, k, prior,
                   z (witness), prior mean; c: covariances, pp: prior covariances
   ev = "gp": K (with noise), alpha (witness), y, q as above, c, pp
   search (2: the kernel's hyperparameters were searched for too)
   ev = "linear": slopes of the log likelihood by the weights, how much each may be off              *)
EXTENDS Predict, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
V(c, name) == IF c THEN {} ELSE {name}
CallOk(e, k) ==
  IF k.ret # "ok" THEN {"C18:raise"} ELSE
  IF k.how = "best" THEN V(IsBest(e.refmu, k.idx, k.best), "C18:best") ELSE
  V(PerPoint(e.refmu, k.idx, k.mu), "C18:mean depends on the batch")
  \cup (IF Len(e.refvar) = 0 \/ k.how = "call" THEN {} ELSE
        V(PerPoint(e.refvar, k.idx, k.var), "C18:variance depends on the batch") \cup V(NonNegative(k.var), "C18:negative variance"))
Judge(e) ==
  CASE e.ev = "crash" -> {"crash"}
    [] e.ev = "calls" -> IF e.ret # "ok" THEN {"C18:raise"} ELSE UNION {CallOk(e, e.calls[k]) : k \in DOMAIN e.calls}
    [] e.ret = "LinAlgError" -> V(e.search = 2, "C23:raise")     \* searching may leave the kernels that have a covariance
    [] e.ret # "ok" -> {"C23:raise"}
    \* a search may leave parameters whose covariances are beyond what is written down in millionths
    [] e.ev = "laplace" /\ e.search = 2 /\ \E i, j \in DOMAIN e.K : ~IsNum(e.K[i][j]) \/ Abs(e.K[i][j]) > 400000000 -> {}
    [] e.ev = "laplace" ->
         LET g == Total(e.grads, e.n)  W == TotalM(e.Ws, e.n) IN
         (IF e.coarse > 0 THEN V(Solves(e.K, e.alpha, e.F), "witness") ELSE V(AtMode(e.K, e.F, g), "C23:not at the mode"))
         \cup V(\A i \in DOMAIN e.q : Mean(e.q[i].mu, e.q[i].k, IF e.coarse > 0 THEN e.alpha ELSE g, 0), "C23:mean")
         \cup V(\A i \in DOMAIN e.q : Witness(W, e.K, e.q[i].z, e.q[i].k), "witness")
         \cup V(\A i \in DOMAIN e.q : Var(e.q[i].var, e.pp[i][i], e.q[i].k, e.q[i].z), "C23:variance")
         \cup V(\A i, j \in DOMAIN e.q : Cov(e.c[i][j], e.pp[i][j], e.q[i].k, e.q[j].z), "C23:covariance")
    [] e.ev = "gp" ->
         V(Solves(e.K, e.alpha, e.y), "witness")
         \cup V(\A i \in DOMAIN e.q : Mean(e.q[i].mu, e.q[i].k, e.alpha, e.q[i].m), "C23:mean")
         \cup V(\A i \in DOMAIN e.q : Solves(e.K, e.q[i].z, e.q[i].k), "witness")
         \cup V(\A i \in DOMAIN e.q : Var(e.q[i].var, e.pp[i][i], e.q[i].k, e.q[i].z), "C23:variance")
         \cup V(\A i, j \in DOMAIN e.q : Cov(e.c[i][j], e.pp[i][j], e.q[i].k, e.q[j].z), "C23:covariance")
    [] e.ev = "linear" -> V(\A i \in DOMAIN e.slopes : Abs(e.slopes[i]) <= 3000, "C23:linear fit is not at the mode")
Consume == /\ l <= Len(Trace)
           /\ LET bad == Judge(Trace[l]) IN
              bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
           /\ l' = l + 1
TraceSpec == l = 1 /\ [][Consume]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
