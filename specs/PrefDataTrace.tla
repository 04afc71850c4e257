---------------------------- MODULE PrefDataTrace ----------------------------
(* Validates recorded histories of the real models against PrefData.  Total: every event is
   consumed; failed clauses are reported and the specified state is resynchronised with the
   observed one, so that later clauses are judged on their own.

   ev = "start":  a new model (pareto: 0/1)
   ev = "op":     one public call: op, kind, X, L (as given), ret ("ok"/"raise"), args (1: the caller's
                  arrays are unchanged), obs: what the model holds afterwards
   ev = "pred":   the same, for a prediction: p (mean, var), f1, f2 (two new models given the
                  accepted calls since the last reset), q (prior expectation), hasq           *)
EXTENDS PrefData, Json, IOUtils, CSV

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, pareto, lastp, hyp
tvars == <<l, s, pareto, lastp, hyp>>

NoPred == [none |-> TRUE]

V(c, name) == IF c THEN {} ELSE {name}

Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
NaN == 2000000000
Close(a, b, tol) == /\ Len(a) = Len(b)
                    /\ \A i \in DOMAIN a : a[i] # NaN /\ b[i] # NaN /\ Abs(a[i] - b[i]) <= tol + Abs(b[i]) \div 50

(* the observed data as a state; labels canonical *)
ObsState(o, pr) == [pts |-> o.pts,
                prefs |-> [i \in DOMAIN o.prefs |-> Canon(o.prefs[i])],
                ords |-> o.ords, abss |-> o.abss, vals |-> o.vals, noi |-> o.noi, prior |-> pr]

Same(o, e) == /\ o.pts = e.pts /\ SameBag(o.prefs, e.prefs) /\ SameBag(o.ords, e.ords)
              /\ SameBag(o.abss, e.abss) /\ o.vals = e.vals /\ o.noi = e.noi /\ o.prior = e.prior

Asking == {"predict", "select", "gethyper", "plarge", "mutate", "best", "getprior"}

DataClauses(ev, o) ==
    LET e == Apply(s, ev, pareto = 1)
        ok == ev.op = "add" /\ Valid(ev.kind, ev.L)
    IN CASE ev.op = "add" /\ ~ok ->
             \* refused: nothing changes (whether or not it raises)
             V(Same(o, s), "C02:changed") \cup V(ev.args = 1, "C02:args")
             \cup V(ev.must = 0 \/ ev.ret = "raise", "C02:accepted")
         [] ev.op = "add" ->
             V(ev.ret = "ok", "C01:raise")
             \cup V(o.pts = e.pts, "C01:points")
             \cup V(SameBag(o.ords, e.ords), "C01:ords") \cup V(SameBag(o.abss, e.abss), "C01:abss")
             \cup V(o.vals = e.vals, "C01:vals") \cup V(o.noi = e.noi, "C01:noise") \cup V(ev.args = 1, "C01:args")
             \cup (IF pareto = 1 THEN V(SameBag(o.prefs, e.prefs), "C03:dominance")
                   ELSE V(SameBag(o.prefs, e.prefs), "C01:prefs"))
         [] ev.op = "reset" -> V(ev.ret = "ok", "C01:raise") \cup V(Same(o, e), "C01:reset")
         [] ev.op = "prune" -> V(ev.ret = "ok", "C03:raise") \cup V(Same(o, e), "C03:prune")
         [] ev.op = "prior" -> V(ev.ret = "ok", "C03:raise") \cup V(Same(o, e), "C03:addprior")
                               \cup V(ev.args = 1, "C03:args")
         [] ev.op = "mutate" -> V(Same(o, s), "C01:aliased")
         [] OTHER -> V(ev.ret = "ok" \/ ev.may = 1, "C10:raise") \cup V(Same(o, s), "C10:changed") \cup V(ev.args = 1, "C10:args")

(* the reported prior points; the range is the specified one *)
PriorObs(ev, o) == V((o.prior # <<>> /\ o.prior[2] > Len(o.pts)) \/ ev.obs.priorpts = PriorPts(o), "C03:priorpts")

(* tolerances: units of 1e-5 *)
PredClauses(ev) ==
    IF ev.ret # "ok" /\ ev.may = 0 THEN {"C04:raise"}
    ELSE IF ev.hasq = 1 THEN V(Close(ev.p, ev.q, 2), "C04:prior")
    ELSE IF ~Close(ev.f1, ev.f2, ev.stol) THEN {}       \* no single answer to compare with
    ELSE V(Close(ev.p, ev.f1, ev.tol), "C04:pred")

Repeat(ev) == IF lastp = NoPred \/ ev.rnd = 1 THEN {}
              ELSE V(Close(ev.p, lastp.p, ev.rtol), "C10:repeat")

Consume ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l] IN
     \/ /\ ev.ev = "start"
        /\ s' = Empty /\ pareto' = ev.pareto /\ lastp' = NoPred /\ hyp' = <<>>
     \/ /\ ev.ev = "crash"
        /\ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> {"crash"}])>>, IOEnv.VERDICTS)
        /\ UNCHANGED <<s, pareto, lastp, hyp>>
     \/ /\ ev.ev \in {"op", "pred"}
        /\ LET o == ObsState(ev.obs, Apply(s, ev, pareto = 1).prior)
               bad == DataClauses(ev, o) \cup PriorObs(ev, o)
                      \cup (IF hyp # <<>> /\ ev.obs.hyp # hyp[1] THEN {"C10:hyper"} ELSE {})
                      \cup (IF ev.ev = "pred" THEN PredClauses(ev) \cup Repeat(ev) ELSE {})
           IN /\ (bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS))
              /\ s' = o
              /\ hyp' = <<ev.obs.hyp>>
              /\ lastp' = IF ev.ev = "pred" THEN [p |-> ev.p]
                          ELSE IF ev.op \in Asking THEN lastp ELSE NoPred
              /\ UNCHANGED pareto
  /\ l' = l + 1

TraceInit == l = 1 /\ s = Empty /\ pareto = 0 /\ lastp = NoPred /\ hyp = <<>>
TraceSpec == TraceInit /\ [][Consume]_tvars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
