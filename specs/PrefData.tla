------------------------------ MODULE PrefData ------------------------------
(* The training data of a preference model: what every public operation does to it.
   Operators over a plain state record, so that the design machine (PrefDataDesign), the
   behaviour generator (PrefDataGen) and the trace checker (PrefDataTrace) share one definition.

   Points are sequences of integer coordinates.  Labels use the 0-based indices of the library.
     prefs : sequence of <<winner, loser>>
     ords  : sequence of <<rating, index>>
     abss  : sequence of <<score, index>>      (scores in millionths)
     vals  : sequence of values (plain GP: one per point, in thousandths)
     noi   : sequence of the noise each value was given with (millionths)
     prior : <<>> (none) or <<lo, hi>>: prior points are positions lo .. hi-1                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Empty == [pts |-> <<>>, prefs |-> <<>>, ords |-> <<>>, abss |-> <<>>, vals |-> <<>>, noi |-> <<>>, prior |-> <<>>]

(* a comparison (dk, u, v): dk = -1 says u is better, dk = 1 says v is better *)
Canon(l) == IF l[1] = -1 THEN <<l[2], l[3]>> ELSE <<l[3], l[2]>>

Gt(a, b) == \A k \in DOMAIN a : a[k] > b[k]

(* comparisons implied by dominance when the points after position n are new *)
DomSet(pts, n) == {<<i - 1, j - 1>> : <<i, j>> \in {p \in ((n + 1)..Len(pts)) \X (1..Len(pts)) : Gt(pts[p[1]], pts[p[2]])}}

Million == 1000000
Clamp(v) == IF v < 1000 THEN 1000 ELSE IF v > 999000 THEN 999000 ELSE v

Kinds == {"pref", "ord", "abs", "val"}

(* are the labels within their domain?  (a comparison list is always accepted) *)
Valid(kind, L) ==
    CASE kind = "pref" -> TRUE
      [] kind = "val"  -> TRUE
      [] kind = "ord"  -> \A i \in DOMAIN L : L[i] >= 1
      [] kind = "abs"  -> \A i \in DOMAIN L : L[i] >= 0 /\ L[i] <= Million
      [] OTHER         -> FALSE

(* the noise given with values, by the form (c) they are given in: one each as a list or array, one for all, or none *)
Noise(L, c) == [i \in DOMAIN L |-> IF c \in {3, 5} THEN 50000 * (1 + ((i * 3 + c) % 4)) ELSE IF c = 1 THEN 100000 ELSE 500]

Add(s, kind, X, L, c0, pareto) ==
    LET n   == Len(s.pts)
        p2  == s.pts \o X
        dom == IF pareto /\ kind # "val" THEN SetToSeq(DomSet(p2, n)) ELSE <<>>
        given == IF kind = "pref"
                 THEN [i \in DOMAIN L |-> LET c == Canon(L[i]) IN <<c[1] + n, c[2] + n>>]
                 ELSE <<>>
    IN  [s EXCEPT
          !.pts   = p2,
          !.prefs = @ \o given \o dom,
          !.ords  = IF kind = "ord" THEN @ \o [i \in DOMAIN L |-> <<L[i], n + i - 1>>] ELSE @,
          !.abss  = IF kind = "abs" THEN @ \o [i \in DOMAIN L |-> <<Clamp(L[i]), n + i - 1>>] ELSE @,
          !.noi   = IF kind = "val" THEN @ \o Noise(L, c0) ELSE @,
          !.vals  = IF kind = "val" THEN @ \o L ELSE @]

Reset(s) == Empty

(* positions (1-based) that some label refers to *)
Referenced(s) == {s.prefs[i][1] + 1 : i \in DOMAIN s.prefs} \cup {s.prefs[i][2] + 1 : i \in DOMAIN s.prefs}
                 \cup {s.ords[i][2] + 1 : i \in DOMAIN s.ords} \cup {s.abss[i][2] + 1 : i \in DOMAIN s.abss}

Before(R, k) == Cardinality({r \in R : r < k})      \* kept positions before (1-based) position k

Prune(s) ==
    LET R      == Referenced(s)
        new(u) == Before(R, u + 1)                     \* new 0-based index of kept 0-based index u
        keep   == SelectSeq([i \in DOMAIN s.pts |-> <<i, s.pts[i]>>], LAMBDA t : t[1] \in R)
    IN  IF s.pts = <<>> THEN s
        ELSE [s EXCEPT
               !.pts   = [i \in DOMAIN keep |-> keep[i][2]],
               !.prefs = [i \in DOMAIN @ |-> <<new(@[i][1]), new(@[i][2])>>],
               !.ords  = [i \in DOMAIN @ |-> <<@[i][1], new(@[i][2])>>],
               !.abss  = [i \in DOMAIN @ |-> <<@[i][1], new(@[i][2])>>],
               !.prior = IF R = {} \/ @ = <<>> THEN <<>>
                         ELSE <<Before(R, @[1] + 1), Before(R, @[2] + 1)>>]

(* adding prior points: only with dominance switched on *)
AddPrior(s, X, pareto) ==
    IF ~pareto THEN s
    ELSE Prune(Add([s EXCEPT !.prior = <<Len(s.pts), Len(s.pts) + Len(X)>>], "pref", X, <<>>, 0, TRUE))

PriorPts(s) == IF s.prior = <<>> THEN <<>> ELSE SubSeq(s.pts, s.prior[1] + 1, s.prior[2])

(* one public operation, as a record [op, kind, X, L] *)
Apply(s, a, pareto) ==
    CASE a.op = "add"   -> IF Valid(a.kind, a.L) THEN Add(s, a.kind, a.X, a.L, a.cont, pareto) ELSE s
      [] a.op = "reset" -> Reset(s)
      [] a.op = "prune" -> Prune(s)
      [] a.op = "prior" -> AddPrior(s, a.X, pareto)
      [] OTHER          -> s          \* predict, select, get_hyper, mutate (of the caller's arrays)

(* multisets of labels: storage order is not part of the meaning *)
CountIn(x, q) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(p, q) == /\ Len(p) = Len(q)
                 /\ \/ p = q
                    \/ \A i \in DOMAIN p : CountIn(p[i], p) = CountIn(p[i], q)
=============================================================================
