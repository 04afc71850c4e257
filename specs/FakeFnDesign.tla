----------------------------- MODULE FakeFnDesign -----------------------------
(* Every sequence of batch evaluations and randomizations of a linear, minimum or maximum function. *)
EXTENDS FakeFn, TLC
CONSTANTS Points, Weights, MaxOps
VARIABLES kind, w, mem, seen, ops
vars == <<kind, w, mem, seen, ops>>
Init == kind \in {"linear", "max", "min"} /\ w \in Weights /\ mem = {} /\ seen = <<>> /\ ops = 0
Eval == \E p, q \in Points :
          LET v == <<Form(kind, w, p), Form(kind, w, q)>>
          IN /\ seen' = <<<<p, q>>, v>>
             /\ mem' = Remember(mem, <<p, q>>, v)
             /\ UNCHANGED <<kind, w>>
Randomize == \E x \in Weights : w' = x /\ mem' = {} /\ seen' = <<>> /\ UNCHANGED kind
Next == ops < MaxOps /\ ops' = ops + 1 /\ (Eval \/ Randomize)
Spec == Init /\ [][Next]_vars
MemIsFunction == \A m, n \in mem : m[1] = n[1] => m[2] = n[2]
MemIsForm == \A m \in mem : m[2] = Form(kind, w, m[1])
SeenOk == seen = <<>> \/ Consistent(mem, seen[1], seen[2], 0)
Ordered == \A p \in Points : MinS(Terms(w, p)) <= MaxS(Terms(w, p)) /\ MinS(Terms(w, p)) * Len(p) <= Dot(w, p) /\ Dot(w, p) <= MaxS(Terms(w, p)) * Len(p)
Pts == {0, 1, 3} \X {0, 2}
Wts == {<<1, 0>>, <<1, 1>>, <<2, 1>>, <<0, 3>>}
=============================================================================
