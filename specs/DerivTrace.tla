------------------------------ MODULE DerivTrace ------------------------------
(* ev = "slope": of (what of what), g (reported, 1e-6), up, down (changes of the function, 1e-9)
   ev = "curv" : kind, W (second derivatives reported, negated), g (first derivatives)
   ev = "far" : f, b, lv, s, and for each rating the slope g and curvature w (in units of the noise)    *)
EXTENDS Deriv, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
V(c, name) == IF c THEN {} ELSE {name}
Judge(e) ==
  CASE e.ev = "crash" -> {"crash"}
    [] e.ret # "ok" -> {"C22:raise " \o e.of}
    [] e.ev = "slope" -> V(Slopes(e.g, e.up, e.down), "C22:slope " \o e.of)
    [] e.ev = "far" -> V(\A r \in 1..e.lv : Faraway(e.f, e.b, e.lv, e.s, r) => FarOk(e.f, e.b, e.lv, e.s, r, e.g[r], e.w[r]), "C22:far ratings")
    [] e.ev = "curv" -> V(Symmetric(e.W), "C22:symmetric " \o e.of)
         \cup (IF e.kind = "pref" THEN V(Balanced(e.g) /\ \A i \in DOMAIN e.W : Balanced(e.W[i]), "C22:differences only") ELSE {})
         \cup (IF e.kind \in {"ord", "abs"} THEN V(Diagonal(e.W), "C22:each rating its own") ELSE {})
Consume == /\ l <= Len(Trace)
           /\ LET bad == Judge(Trace[l]) IN
              bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
           /\ l' = l + 1
TraceSpec == l = 1 /\ [][Consume]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
