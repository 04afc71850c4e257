---------------------------- MODULE EstimatesTrace ----------------------------
(* ev = "fits": model, at, descs, mirror, ret (per description), est (per description: means at the points,
                then at other places, 1e-6), var (the same, 1e-6)
   ev = "order": descs (one), loc, items, est (mean at each item, 1e-6)
   ev = "linear": at, w (weights that satisfy the comparisons), descs (one), est (1e-4)                         *)
EXTENDS Estimates, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
V(c, name) == IF c THEN {} ELSE {name}
Tol(x) == 60 + Abs(x) \div 5000
NearAll(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Near(s[k], t[k], Tol(s[k]))
Neg(s) == [k \in DOMAIN s |-> -s[k]]
Unique(e) == e.model # "plin" \/ LET T == Tokens(e.descs[1]) IN Contradicted(T) /\ Spanning(T, e.at)
Judge(e) ==
  CASE e.ev = "crash" -> {"crash"}
    [] e.ev = "fits" ->
         LET d == e.descs[1] IN
         V(\A k \in DOMAIN e.descs : IF e.mirror[k] = 1 THEN ReversedEvidence(d, e.descs[k]) ELSE SameEvidence(d, e.descs[k]), "generator")
         \cup V(\A k \in DOMAIN e.ret : e.ret[k] = "ok", "C05:raise")
         \cup (IF Unique(e) /\ \A k \in DOMAIN e.ret : e.ret[k] = "ok"
               THEN V(\A k \in DOMAIN e.descs : e.mirror[k] = 0 => NearAll(e.est[1], e.est[k]), "C05:same evidence, other estimates")
                    \cup V(\A k \in DOMAIN e.descs : e.mirror[k] = 1 => NearAll(e.est[1], Neg(e.est[k])), "C05:reversed evidence is not negated")
                    \cup V(\A k \in DOMAIN e.descs : NearAll(e.var[1], e.var[k]), "C05:same evidence, other variance")
               ELSE {})
    [] e.ev = "order" ->
         LET T == Tokens(e.descs[1])  P == Points(e.descs[1])  I == 1..e.items
         IN IF e.ret # "ok" THEN {"C06:raise"}
            ELSE IF e.model = "plin" /\ ~Connected(T, e.loc, I) THEN {}
            ELSE V(Ordered(T, P, e.loc, I, e.est, 20), "C06:better evidence, not a higher estimate")
                 \cup V(Equal(T, P, e.loc, I, e.est, 60), "C06:same evidence, different estimates")
    [] e.ev = "linear" ->
         LET T == Tokens(e.descs[1]) IN
         V(Satisfied(T, e.at, e.w), "generator")
         \cup (IF e.ret # "ok" THEN {"C06:raise"} ELSE V(Agree(T, e.est), "C06:linear fit contradicts what it could satisfy"))
Consume == /\ l <= Len(Trace)
           /\ LET bad == Judge(Trace[l]) IN
              bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
           /\ l' = l + 1
TraceSpec == l = 1 /\ [][Consume]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
