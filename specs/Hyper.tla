-------------------------------- MODULE Hyper --------------------------------
(* Hyperparameters of a model: which vector is read and written, and which part each entry belongs to.
   A model has three likelihoods (comparisons, ratings, scores) and a kernel expression.  The state
     vals : sequence of value sequences, one per part: 1..3 the likelihoods, then the kernel's leaves
            from left to right
     data : the likelihoods (subset of 1..3) that have data
     cfg  : [n1, n2, n3: how many values of each likelihood take part; only: kernel excluded]
   Values are in millionths.  part sizes never change.                                          *)
EXTENDS Integers, Sequences, FiniteSets

(* slots of the scores: <<sigma, v>>; when only v takes part it is slot 2 *)
Slots(cfg, p, vals) ==
   CASE p = 1 -> IF cfg.n1 = 0 THEN <<>> ELSE <<1>>
     [] p = 2 -> <<1, 2>>
     [] p = 3 -> IF cfg.n3 = 0 THEN <<>> ELSE IF cfg.n3 = 1 THEN <<2>> ELSE <<1, 2>>
     [] OTHER -> [i \in DOMAIN vals[p] |-> i]
Active(cfg, data, p) == IF p <= 3 THEN p \in data ELSE cfg.only = 0

RECURSIVE LayFrom(_, _, _, _)
LayFrom(cfg, data, vals, p) ==
   IF p > Len(vals) THEN <<>>
   ELSE (IF Active(cfg, data, p) THEN LET s == Slots(cfg, p, vals) IN [i \in DOMAIN s |-> <<p, s[i]>>] ELSE <<>>)
        \o LayFrom(cfg, data, vals, p + 1)
Layout(cfg, data, vals) == LayFrom(cfg, data, vals, 1)
KernLayout(vals) == LayFrom([only |-> 0], {}, vals, 4)

Read(lay, vals) == [k \in DOMAIN lay |-> vals[lay[k][1]][lay[k][2]]]
Write(lay, vals, x) ==
   [p \in DOMAIN vals |-> [i \in DOMAIN vals[p] |->
      LET at == {k \in DOMAIN lay : lay[k] = <<p, i>>} IN IF at = {} THEN vals[p][i] ELSE x[CHOOSE k \in at : TRUE]]]
InLayout(lay, p, i) == \E k \in DOMAIN lay : lay[k] = <<p, i>>
(* a random draw may change what is drawn (the rating likelihood has no prior to draw from) and nothing else *)
Drawn(lay, old, new) == /\ DOMAIN old = DOMAIN new
                        /\ \A p \in DOMAIN old : /\ Len(old[p]) = Len(new[p])
                             /\ \A i \in DOMAIN old[p] : (p = 2 \/ ~InLayout(lay, p, i)) => new[p][i] = old[p][i]
                        /\ \A k \in DOMAIN lay : lay[k][1] # 2 => new[lay[k][1]][lay[k][2]] > 0
=============================================================================
