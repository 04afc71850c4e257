------------------------------ MODULE InformTrace ------------------------------
(* ev = "mi": offered, rows (for each offered candidate the table of its query), got, score
   ev = "gain": rows, got, size; ev = "gv": mu, C, al, prev, offered, got, score; ev = "finite": score, offered, got
   ev = "acq": pm, f, prev, offered, got (one candidate, or the two of a first pair), score
   ev = "bayes": m, pm (one table), pb, prev, offered, got (one candidate, or two), score
   ev = "align": fn, rep, other, soft, softo, pm, Q, g, h, back (alignments within rep, from rep to other and back)
   ev = "abs": f, dens (per offered candidate), weight, offered, got, score
   ev = "rep": file, train, n, pts, num, k, none, X (positions in the training and candidate points), Q        *)
EXTENDS Inform, TLC, Json, IOUtils, CSV
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
V(c, name) == IF c THEN {} ELSE {name}
Picked(scores, tol, offered, got, score) ==
  IF ~\E i \in DOMAIN offered : offered[i] = got THEN {"C25:offered"} ELSE
  LET k == CHOOSE i \in DOMAIN offered : offered[i] = got IN
  V(\A i \in DOMAIN offered : scores[k] >= scores[i] - tol[i] - tol[k], "C25:choice") \cup V(Near(score, scores[k], tol[k]), "C25:score")
All(n, v) == [i \in 1..n |-> v]
BestTol == 60
Pairs(off) == {<<i, j>> \in Rng(off) \X Rng(off) : i < j}
Low(p) == IF p[1] < p[2] THEN p ELSE <<p[2], p[1]>>
AcqOk(e) ==
  IF Len(e.got) = 2 THEN
     IF Low(e.got) \notin Pairs(e.offered) THEN {"C25:offered"} ELSE
     LET s == [p \in Pairs(e.offered) |-> Expected(e.pm, e.f, p)]  t == [p \in Pairs(e.offered) |-> ExpectedTol(e.pm, p, e.exact = 1)]  g == Low(e.got) IN
     V(\A p \in DOMAIN s : s[g] >= s[p] - t[p] - t[g], "C25:choice") \cup V(Near(e.score, s[g], t[g]), "C25:score")
  ELSE LET T(i) == e.prev \o <<e.offered[i]>> IN
       Picked([i \in DOMAIN e.offered |-> Expected(e.pm, e.f, T(i))], [i \in DOMAIN e.offered |-> ExpectedTol(e.pm, T(i), e.exact = 1)], e.offered, e.got[1], e.score)
BayesOk(e) ==
  IF Len(e.got) = 2 THEN
     IF Low(e.got) \notin Pairs(e.offered) THEN {"C25:offered"} ELSE
     LET s == [p \in Pairs(e.offered) |-> PairGain(e.m, e.pm, p, e.pb)] IN
     V(\A p \in DOMAIN s : s[Low(e.got)] >= s[p] - 2 * BestTol, "C25:choice") \cup V(Near(e.score, s[Low(e.got)], BestTol), "C25:score")
  ELSE Picked([i \in DOMAIN e.offered |-> MoreGain(e.m, e.pm, e.prev \o <<e.offered[i]>>, e.pb)], All(Len(e.offered), BestTol), e.offered, e.got[1], e.score)
Pair(fn, x, y, g, sx, sy) == CASE fn = "one" -> g = U
                               [] fn = "spearman" -> SpearmanOk(x, y, g)
                               [] fn = "epic" -> EpicOk(x, y, g)
                               [] fn = "rho" -> RhoOk(sx, sy, g)
AlignOk(e) ==
  LET D == DOMAIN e.rep IN
  V(\A w, v \in D : Near(e.g[w][v], e.g[v][w], 2), "C25:alignment both ways")
  \cup V(e.fn = "loglikelihood" \/ \A w, v \in D : e.g[w][w] >= e.g[w][v] - 2, "C25:alignment with itself")
  \cup V(e.big = 1 \/ e.fn # "loglikelihood" \/ \A w, v \in D : Near(e.g[w][v], Agreement(e.pm, e.rep, w, v, e.Q), AgreementTol(e.pm, e.rep, w, v, e.Q)), "C25:alignment")
  \cup V(e.fn = "loglikelihood" \/ \A w, v \in D : Pair(e.fn, e.rep[w], e.rep[v], e.g[w][v], e.soft[w], e.soft[v]), "C25:alignment")
  \cup (IF e.h = <<>> THEN {} ELSE
        V(\A w, v \in D : Pair(e.fn, e.rep[w], e.other[v], e.h[w][v], <<>>, <<>>), "C25:alignment between")
        \cup V(\A w, v \in D : Near(e.h[w][v], e.back[v][w], 2), "C25:alignment both ways"))
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE IF k > n THEN 0 ELSE (Choose(n - 1, k - 1) * n) \div k
Lesser(a, b) == IF a < b THEN a ELSE b
(* from a file of ten groups of points: every query within a group *)
FileOk(e) ==
  LET k == MaxOf(2, e.k) IN
  V(e.X = [i \in 1..(10 * e.file) |-> i - 1], "C25:representative points")
  \cup V(/\ Len(e.Q) = 10 * Choose(e.file, k) /\ Cardinality({Rng(q) : q \in Rng(e.Q)}) = Len(e.Q)
         /\ \A q \in Rng(e.Q) : Len(q) = k /\ Cardinality(Rng(q)) = k /\ \E g \in 0..9 : Rng(q) \subseteq (g * e.file)..(g * e.file + e.file - 1),
         "C25:representative queries")
RepOk(e) ==
  IF e.file > 0 THEN FileOk(e) ELSE
  IF e.none = 1 THEN V(e.train = 0, "C25:representative") ELSE
  LET all == IF e.train < 4 THEN e.train + e.n ELSE e.train
      N == Lesser(all, e.pts)  k == MaxOf(2, e.k) IN
  V(e.train > 0 /\ Len(e.X) = N /\ Cardinality(Rng(e.X)) = N /\ Rng(e.X) \subseteq 0..(all - 1), "C25:representative points")
  \cup V(/\ Len(e.Q) = Lesser(e.num, Choose(N, k)) /\ \A q \in Rng(e.Q) : Len(q) = k /\ Cardinality(Rng(q)) = k /\ Rng(q) \subseteq 0..(N - 1)
         /\ \A i, j \in DOMAIN e.Q : i # j => Rng(e.Q[i]) # Rng(e.Q[j]), "C25:representative queries")
Judge(e) ==
  CASE e.ev = "crash" -> {"crash"}
    [] e.ret # "ok" -> {"C25:raise"}
    [] e.ev = "mi" -> Picked([i \in DOMAIN e.offered |-> Gain(e.rows[i])], All(Len(e.offered), GainTol), e.offered, e.got, e.score)
    [] e.ev = "gain" -> V(e.got >= -1 /\ e.got <= GainMost(e.size) + 1, "C25:gain bounds") \cup V(Near(e.got, Gain(e.rows), GainTol), "C25:gain")
    [] e.ev = "gv" -> Picked([i \in DOMAIN e.offered |-> SpreadScore(e.mu, e.C, e.al, e.prev, e.offered[i])], All(Len(e.offered), e.al + 2), e.offered, e.got, e.score)
    [] e.ev = "finite" -> V(e.got \in Rng(e.offered), "C25:offered") \cup V(Abs(e.score) <= 1000000000, "C25:no score")
    [] e.ev = "acq" -> AcqOk(e)
    [] e.ev = "bayes" -> BayesOk(e)
    [] e.ev = "align" -> AlignOk(e)
    [] e.ev = "abs" -> Picked([i \in DOMAIN e.offered |-> Rated(e.f, e.dens[i], e.weight)], All(Len(e.offered), 120), e.offered, e.got, e.score)
    [] e.ev = "rep" -> RepOk(e)
Consume == /\ l <= Len(Trace)
           /\ LET bad == Judge(Trace[l]) IN
              bad = {} \/ CSVWrite("%1$s", <<ToJson([l |-> l, v |-> bad])>>, IOEnv.VERDICTS)
           /\ l' = l + 1
TraceSpec == l = 1 /\ [][Consume]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================
