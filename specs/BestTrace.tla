------------------------------- MODULE BestTrace -------------------------------
(* ev = "cdf": method, mu, C, p;  ev = "best": method, mu, C, p, raw (the sum before it was made 1), and the same
   after moving the candidates (turn, moved), all means (shifted), scale (scaled), one mean (up, raised), and with
   a hopeless candidate added (joined)
   ev = "fit": method, p, turn, moved, mu (predictions of a fitted model)
   ev = "linear": W, X, p (in 1/U), pairs, F, t (log likelihoods of weights given to the sampler, 1/1000), dim           *)
EXTENDS Best, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
V(c, name) == IF c THEN {} ELSE {name}
Exactly(m) == m \in {"full", "auto", "mvn"}
CdfOk(e) ==
  LET n == Len(e.mu)  tol == 6 + 2 * n  ex == Exacts(e.mu, e.C)
      pairsOf == ex /\ Halves(e.C) /\ PairsCentred(e.mu, e.C) /\ Paired(e.C)
      noisy == IF e.method \in {"auto", "mvn"} /\ n > 3 THEN 300 ELSE tol IN
  V(Chance(e.p), "C26:chance") \cup V(e.args = 1, "C26:args")
  \cup V(~ex \/ ~(Diag(e.C) \/ e.method = "independent") \/ Near(e.p, Apart(e.mu, e.C), noisy), "C26:apart")
  \cup V(~(ex /\ Halves(e.C) /\ Zero(e.mu) /\ (n <= 2 \/ (n = 3 /\ Exactly(e.method)))) \/ e.method = "independent" \/ Near(e.p, Orthant(e.C), tol), "C26:together")
  \cup V(~pairsOf \/ e.method = "independent" \/ Near(e.p, InPairs(e.mu, e.C), noisy), "C26:in pairs")
  \cup V(~ex \/ ~Exactly(e.method) \/ (e.p <= Most(e.mu, e.C) + noisy /\ e.p >= Least(e.mu, e.C) - noisy), "C26:bounds")
BestOk(e) ==
  LET n == Len(e.mu)  D == 1..n IN
  IF ~Adds(e.p) THEN {"C26:adds to one"} ELSE
  V(e.raw = 0 \/ e.method # "full" \/ Near(e.raw, U, 10 + 2 * n), "C26:all cases")
  \cup V(e.args = 1, "C26:args")
  \cup V(e.method = "switch" \/ Moved(e.p, e.moved, e.turn, 8), "C26:order")
  \cup V(Same(e.p, e.shifted, 8) /\ Same(e.p, e.scaled, 8), "C26:units")
  \cup V(Raised(e.p, e.raised, e.up, 8) /\ (Exactly(e.method) => NoneElse(e.p, e.raised, e.up, 8)), "C26:raised")
  \cup V(e.method \notin {"full", "independent"} \/ (Same(e.p, SubSeq(e.joined, 1, n), 10) /\ e.joined[n + 1] <= 8), "C26:hopeless")
  \cup V(e.method = "switch" \/ \A i, j \in D : Alike(e.mu, e.C, i, j) => Near(e.p[i], e.p[j], 8), "C26:alike")
  \cup V(n # 2 \/ ~AllExact(e.mu, e.C) \/ Near(e.p[1], Ahead(e.mu, e.C, 1, 2), 8), "C26:of two")
  \cup V(e.method # "independent" \/ ~AllExact(e.mu, e.C) \/ Same(e.p, OneByOne(e.mu, e.C), 40), "C26:one by one")
  \cup V(~Exactly(e.method) \/ ~AllExact(e.mu, e.C) \/ \A i, j \in D : i = j \/ e.p[i] <= Ahead(e.mu, e.C, i, j) + 10, "C26:bounds")
Dot(a, b) == Sum([i \in DOMAIN a |-> a[i] * b[i]])
LinearOk(e) ==
  LET v(w, i) == Dot(e.W[w], e.X[i])  M == Len(e.W)
      top(w) == {i \in DOMAIN e.X : \A j \in DOMAIN e.X : v(w, i) >= v(w, j)}
      sure(i) == Cardinality({w \in 1..M : top(w) = {i}})  may(i) == Cardinality({w \in 1..M : i \in top(w)}) IN
  IF ~Adds(e.p) THEN {"C26:adds to one"} ELSE
  V(\A i \in DOMAIN e.p : e.p[i] >= (U * sure(i)) \div M - 1 /\ e.p[i] <= (U * may(i)) \div M + 1, "C26:share of samples")
  \cup V(e.dim = Len(e.X[1]), "C26:sampled weights")
  \cup V(e.t[1] = e.t[2] \/ Near(e.t[1], e.t[2], 4), "C26:sampled weights")
Judge(e) ==
  CASE e.ev = "crash" -> {"crash"}
    [] e.ret # "ok" -> {"C26:raise"}
    [] e.ev = "cdf" -> CdfOk(e)
    [] e.ev = "best" -> BestOk(e)
    [] e.ev = "fit" -> IF ~Adds(e.p) THEN {"C26:adds to one"} ELSE V(Moved(e.p, e.moved, e.turn, 12), "C26:order") \cup V(\A i, j \in DOMAIN e.p : e.p[i] <= e.beats[i][j] + 20 \/ e.method # "full" \/ i = j, "C26:bounds")
    [] e.ev = "linear" -> LinearOk(e)
Consume == /\ l <= Len(Trace)
           /\ LET bad == Judge(Trace[l]) IN
              bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
           /\ l' = l + 1
TraceSpec == l = 1 /\ [][Consume]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================
