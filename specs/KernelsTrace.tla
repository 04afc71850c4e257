----------------------------- MODULE KernelsTrace -----------------------------
(* ev = "kern": tree, q (parameters per leaf, quarters), z (the zero point), X, Y (points, halves), same (1 if
   the two sets are equal), noise (per leaf, millionths), n (number of parameters reported), args, stable;
   call, back : values at each pair, asked as (x, y) and as (y, x);  cov, covb : matrices of (X, Y), (Y, X)
   leafcall, leafcov : the same of each leaf; gij : pairs at which gradients were taken; grad, cgrad : the
   gradient there, from the pair and from the gradient matrices; lgrad, lcgrad : of each leaf
   lik, gliks : log prior of the parameters and its gradient; llik, lglik : of each leaf           *)
EXTENDS Kernels, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
V(c, name) == IF c THEN {} ELSE {name}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Rect(m, e) == Len(m) = Len(e.X) /\ \A i \in DOMAIN m : Len(m[i]) = Len(e.Y)
RectT(m, e) == Len(m) = Len(e.Y) /\ \A i \in DOMAIN m : Len(m[i]) = Len(e.X)
Judge(e) ==
  IF e.ev = "crash" THEN {"crash"} ELSE
  IF e.ret # "ok" THEN {"C19:raise"} ELSE
  LET t == e.tree
      lv == Leaves(t)
      K == DOMAIN lv
      N == DOMAIN e.X
      M == DOMAIN e.Y
      at(m, i, j) == [k \in K |-> m[k][i][j]]
      diag(i, j) == e.same = 1 /\ i = j
  IN V(e.args = 1, "C19:args") \cup V(e.stable = 1, "C19:same again")
     \cup V(e.n = SumSeq([k \in K |-> Sizes[lv[k]]], Len(lv)), "C19:parameters")
     \cup (IF ~(Rect(e.call, e) /\ RectT(e.back, e) /\ Rect(e.cov, e) /\ RectT(e.covb, e) /\ \A k \in K : Rect(e.leafcall[k], e) /\ Rect(e.leafcov[k], e))
           THEN {"C19:matrix shape"} ELSE
       V(\A i \in N, j \in M : e.call[i][j] = e.back[j][i], "C19:symmetric")
       \cup V(\A i \in N, j \in M : Near(e.cov[i][j], e.covb[j][i], 1) \/ ~IsNum(e.cov[i][j]), "C19:matrix symmetric")
       \cup V(\A k \in K : \A i \in N, j \in M : Near(e.leafcall[k][i][j], Leaf(lv[k], e.q[k], e.z, e.X[i], e.Y[j]), 25), "C24:shape")
       \cup V(\A k \in K : \A i \in N, j \in M : Near(e.leafcov[k][i][j], Leaf(lv[k], e.q[k], e.z, e.X[i], e.Y[j]) + (IF diag(i, j) THEN e.noise[k] ELSE 0), 29), "C24:shape of the matrix")
       \cup V(\A i \in N, j \in M : Is(e.call[i][j], Value(t, at(e.leafcall, i, j))), "C19:composition")
       \cup V(\A k \in K : \A i \in N, j \in M : Near(e.leafcov[k][i][j], e.leafcall[k][i][j] + (IF diag(i, j) THEN e.noise[k] ELSE 0), 4), "C19:matrix of a leaf")
       \cup V(\A i \in N, j \in M : Is(e.cov[i][j], Value(t, [k \in K |-> e.leafcall[k][i][j] + (IF diag(i, j) THEN e.noise[k] ELSE 0)])), "C19:matrix"))
     \cup V(\A g \in DOMAIN e.gij : LET i == e.gij[g][1]  j == e.gij[g][2] IN
              /\ IsGrad(e.grad[g], Gradient(t, at(e.leafcall, i, j), e.lgrad[g]))
              /\ IsGrad(e.cgrad[g], Gradient(t, at(e.leafcov, i, j), e.lcgrad[g])), "C19:gradient")
     \cup V(Len(lv) > 1 => Is(e.lik, [v |-> SumSeq(e.llik, Len(lv)), e |-> 2 * Len(lv)]), "C19:prior")
     \cup V(e.glik = Flat(e.lglik), "C19:prior gradient")
Consume == /\ l <= Len(Trace)
           /\ LET bad == Judge(Trace[l]) IN
              bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
           /\ l' = l + 1
TraceSpec == l = 1 /\ [][Consume]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
