---------------------------- MODULE SamplerTrace ----------------------------
(* ev = "chain": lls, props, burn, num, asked (the state each proposal was asked from), out
   ev = "walk": the same, the levels close together; low = 1: every draw is the lowest there is
   ev = "chance": n[d] proposals that were d levels down, a[d] of them taken
   ev = "sets": items, size, num, sets
   ev = "balance": wl, wh (weights of two states), n proposals of the light one made at the heavy
        one, a of them accepted                                                              *)
EXTENDS Sampler, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
V(c, name) == IF c THEN {} ELSE {name}
Sq(x) == x * x
Judge(e) ==
  CASE e.ev = "crash" -> {"crash"}
    [] e.ev = "chain" ->
         LET ch == Chain(e.lls, e.props)
             n == e.burn + e.num
         IN V(e.ret = "ok", "C12:raise") \cup V(Len(e.asked) = n, "C12:steps")
            \cup V(Len(e.asked) # n \/ e.asked = [i \in 1..n |-> IF i = 1 THEN 0 ELSE ch[i - 1]], "C12:proposal")
            \cup V(Len(e.out) = e.num, "C12:samples")
            \cup V(e.out = Samples(e.lls, e.props, e.burn), "C12:chain")
            \cup V(e.shape = <<e.num, e.dim>>, "C12:shape")
    [] e.ev = "walk" ->
         LET n == e.burn + e.num
             st == [i \in 1..n |-> IF i < n THEN e.asked[i + 1] ELSE e.out[Len(e.out)]]
         IN IF e.ret # "ok" THEN {"C12:raise"}
            ELSE IF Len(e.asked) # n THEN {"C12:steps"}
            ELSE IF Len(e.out) # e.num THEN {"C12:samples"}
            ELSE V(e.asked[1] = 0 /\ \A i \in 1..n : Legal(0, e.lls, e.asked[i], e.props[i], st[i]), "C12:chain")
                 \cup V(e.out = SubSeq(st, e.burn + 1, n), "C12:chain") \cup V(e.shape = <<e.num, e.dim>>, "C12:shape")
    [] e.ev = "chance" ->
         \* within 6 standard deviations, and a little for the rounding of the table
         V(\A d \in DOMAIN e.n : e.n[d] = 0 \/
             LET p == Chance[d] IN Sq((e.a[d] * 100 - (e.n[d] * p) \div 100) \div 100) <= 2 + (36 * e.n[d] * ((p * (10000 - p)) \div 10000)) \div 10000, "C12:acceptance")
    [] e.ev = "sets" ->
         V(e.ret = "ok", "C12:raise") \cup V(CSetCount(e.sets, e.num), "C12:setcount")
         \cup V(CSetSize(e.sets, e.size), "C12:setsize") \cup V(CSetMembers(e.sets, Rng(e.items)), "C12:members")
         \cup V(e.uniq = 0 \/ CSetDistinct(e.sets), "C12:distinct") \cup V(e.args = 1, "C12:args")
    [] e.ev = "balance" ->
         \* within 6 standard deviations of the binomial
         V(Sq(e.a * e.wh - e.n * e.wl) <= 36 * e.n * e.wl * (e.wh - e.wl), "C12:balance")
Consume == /\ l <= Len(Trace)
           /\ LET bad == Judge(Trace[l]) IN
              bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
           /\ l' = l + 1
TraceSpec == l = 1 /\ [][Consume]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
