----------------------------- MODULE PrefDataGen -----------------------------
(* Generates histories of public operations (TLC -simulate); one JSON line per history. *)
EXTENDS PrefData, CSV, IOUtils, Json

CONSTANTS Coords, Dim, MaxBatch, MaxLen, MaxPts, Pareto,
          Redo,        \* kinds of data given again after a reset
          Weights      \* sequence of operation names; an operation is drawn uniformly from it

VARIABLES s, hist
R(S) == RandomElement(S)

Points == [1..Dim -> Coords]
OrdSet == 1..5
AbsSet == {0, 1, 500, 1000, 200000, 500000, 730000, 998999, 999000, 999500, 1000000}
BadOrd == {0, -1, -3, -9300, -9001}     \* below -9000: (10000 + code) thousandths, so between 0 and 1
BadAbs == {-1, -200000, 1000001, 1700000, 2000000000}     \* the last stands for NaN
PairSet(n) == {<<d, u, v>> : <<d, u, v>> \in {t \in {-1, 1} \X (0..(n - 1)) \X (0..(n - 1)) : t[2] # t[3]}}

Init == s = Empty /\ hist = <<>>

Emit(h) == Len(h) < MaxLen \/ CSVWrite("%1$s", <<ToJson([acts |-> h, pareto |-> Pareto, dim |-> Dim])>>, IOEnv.OUT)

Step(a) == /\ hist' = Append(hist, a)
           /\ s' = Apply(s, a, Pareto)
           /\ Emit(hist')

RECURSIVE ApplyAll(_, _)
ApplyAll(st, as) == IF as = <<>> THEN st ELSE ApplyAll(Apply(st, Head(as), Pareto), Tail(as))
Steps(as) == /\ hist' = hist \o as
             /\ s' = ApplyAll(s, as)
             /\ Emit(hist')

(* many points at once, their coordinates and labels by rule *)
Bulk(n, c) == [i \in 1..n |-> [d \in 1..Dim |-> ((i + c) * (d + 1) + (i \div 7)) % 7]]
BulkPairs(n, c) == <<<<-1, n - 1, n - 2>>, <<1, c, n - 1>>, <<1, n \div 2, n - 2>>, <<-1, 0, n - 1>>>>

Act(op, kind, X, L, c) == [op |-> op, kind |-> kind, X |-> X, L |-> L, cont |-> c]

Next ==
  /\ Len(hist) < MaxLen
  /\ \E c \in {R(0..5)} : \E want \in {R(DOMAIN Weights)} : \E n \in {R(1..MaxBatch)} :
     LET full == Len(s.pts) + n > MaxPts
         op == IF full /\ Weights[want] \in {"pref", "ord", "abs", "val", "prior"} THEN "predict" ELSE Weights[want]
     IN
     \E X \in {R([1..n -> Points])} :
       CASE op = "pref" ->
              \E m \in {R(0..(IF n = 1 THEN 0 ELSE n + 1))} :
                IF m = 0 THEN Step(Act("add", "pref", X, <<>>, c))
                ELSE \E L \in {R([1..m -> PairSet(n)])} : Step(Act("add", "pref", X, L, c))
         [] op = "ord" -> \E L \in {R([1..n -> OrdSet])} : Step(Act("add", "ord", X, L, c))
         [] op = "abs" -> \E L \in {R([1..n -> AbsSet])} : Step(Act("add", "abs", X, L, c))
         [] op = "val" -> \E L \in {R([1..n -> (-20)..20])} : Step(Act("add", "val", X, [i \in 1..n |-> 100 * L[i]], c))
         [] op = "badord" -> \E L \in {R([1..n -> 1..R({5, 9})])} : \E k \in {R(1..n)} : \E b \in {R(BadOrd)} :
                               Step(Act("add", "ord", X, [L EXCEPT ![k] = b], c))
         [] op = "badabs" -> \E L \in {R([1..n -> AbsSet])} : \E k \in {R(1..n)} : \E b \in {R(BadAbs)} :
                               Step(Act("add", "abs", X, [L EXCEPT ![k] = b], c))
         [] op = "badkind" -> \E L \in {R([1..n -> AbsSet])} : Step(Act("add", "bogus", X, L, c))
         [] op = "bulk" ->
              \E m \in {R({100, 130, 150, 257})} : \E k \in {R({"pref", "ord", "abs"})} :
                Step(Act("add", k, Bulk(m, c), IF k = "pref" THEN BulkPairs(m, c) ELSE [i \in 1..m |-> IF k = "ord" THEN 1 + ((i + c) % 5) ELSE 1000 * (((i * 7 + c) % 990) + 1)], c))
         [] op \in {"med", "medp", "medv"} ->      \* some tens of points with labels of one kind
              IF Len(s.pts) > 60 THEN Step(Act("predict", "", <<>>, <<>>, c))
              ELSE \E m \in {R({17, 33, 40})} : \E k \in {R(IF op = "medp" THEN {"pref"} ELSE IF op = "medv" THEN {"val"} ELSE {"pref", "ord", "abs"})} :
                Step(Act("add", k, Bulk(m, c), IF k = "pref" THEN BulkPairs(m, c) ELSE [i \in 1..m |-> IF k = "ord" THEN 1 + ((i + c) % 5) ELSE IF k = "abs" THEN 1000 * (((i * 7 + c) % 990) + 1) ELSE 100 * (((i * 5 + c) % 13) - 6)], c))
         [] op \in {"mredo", "mredop", "mredov"} ->   \* as many again, after a reset
              \E m \in {R({33, 40})} : \E k \in {R(IF op = "mredop" THEN {"pref"} ELSE IF op = "mredov" THEN {"val"} ELSE {"pref", "ord", "abs"})} :
                LET A(x) == Act("add", k, Bulk(m, x), IF k = "pref" THEN BulkPairs(m, x) ELSE [i \in 1..m |-> IF k = "ord" THEN 1 + ((i + x) % 5) ELSE IF k = "abs" THEN 1000 * (((i * 7 + 31 * x) % 990) + 1) ELSE 100 * (((i * 5 + 3 * x) % 13) - 6)], c)
                    O(o) == Act(o, "", <<>>, <<>>, c)
                IN Steps(<<O("reset"), A(c), O("predict"), O("reset"), A(c + 3), O("predict")>>)
         [] op = "badbulk" ->    \* many labels, one of them not allowed
              \E m \in {R({40, 70, 130})} : \E ord \in {R({TRUE, FALSE})} : \E k \in {R({1, m \div 2, m - 1, m, R(1..m)})} : \E b \in {R(IF ord THEN BadOrd ELSE BadAbs)} :
                Step(Act("add", IF ord THEN "ord" ELSE "abs", Bulk(m, c),
                         [[i \in 1..m |-> IF ord THEN 1 + ((i + c) % 5) ELSE 1000 * (((i * 7 + c) % 990) + 1)] EXCEPT ![k] = b], c))
         [] op = "flat" ->       \* many points none of which dominates another; then points above a few of them
              \E m \in {R({66, 80})} :
              IF Len(s.pts) < 60 THEN Step(Act("add", "pref", [i \in 1..m |-> <<i, 90 - i>>], R({<<>>, <<<<-1, 0, m - 1>>, <<1, 2, 5>>>>}), c))
              ELSE \E r \in {R(1..60)} : \E o \in {R({"add", "prior"})} : Step(Act(o, IF o = "prior" THEN "" ELSE "pref", <<<<r + 2, 92 - r>>, <<r, r>>>>, <<>>, c))
         [] op = "redo" ->       \* the same shape of data again after a reset
              \E k \in {R(IF want % 2 = 0 /\ "pref" \in Redo THEN {"pref"} ELSE Redo)} : \E X2 \in {R({X, R([1..n -> Points])})} :
                LET Lab == IF k = "pref" THEN [1..R(1..n) -> PairSet(n + (IF n = 1 THEN 1 ELSE 0))] ELSE IF k = "ord" THEN [1..n -> OrdSet] ELSE IF k = "abs" THEN [1..n -> AbsSet] ELSE [1..n -> (-20)..20]
                    P(Q) == IF k = "pref" /\ n = 1 THEN Q \o Q ELSE Q
                    T(LL) == IF k = "val" THEN [i \in DOMAIN LL |-> 100 * LL[i]] ELSE LL
                IN \E LS \in {Lab} : \E L1 \in {R(LS)} : \E L2 \in {R(LS)} :
                     Steps(<<Act("reset", "", <<>>, <<>>, c), Act("add", k, P(X), T(L1), c), Act("predict", "", <<>>, <<>>, c),
                             Act("reset", "", <<>>, <<>>, c), Act("add", k, P(X2), T(L2), c), Act("predict", "", <<>>, <<>>, c)>>)
         [] op = "prior" -> Step(Act("prior", "", X, <<>>, c))
         [] op = "select" ->
              \E w \in {R({0, 1, 2, 3, 4, 5, 6})} : \E k \in {R(1..4)} : \E z \in {R({0, 0, 1, 2, 3})} :
                \E P \in {R([1..z -> 0..9])} : \E cn \in {R({"list", "set"})} : \E ns \in {R({0, 0, 1})} :
                  Step(Act("select", "", <<>>, <<>>, c) @@ [prev |-> P, pref |-> w, num |-> k, pcont |-> cn, ns |-> ns])
         [] OTHER -> Step(Act(op, "", <<>>, <<>>, c))

Spec == Init /\ [][Next]_<<s, hist>>
W1 == <<"pref", "pref", "pref", "ord", "ord", "abs", "abs", "mutate", "reset", "predict">>
W1b == <<"bulk", "bulk", "pref", "pref", "ord", "abs", "mutate">>
W4r == <<"pref", "redo", "redo", "predict">>
W4pr == <<"pref", "redo", "pref", "redo">>
W5r == <<"val", "redo", "redo", "predict">>
W4b == <<"med", "med", "mredo", "pref", "predict", "predict", "abs">>
W4pb == <<"medp", "medp", "mredop", "pref", "predict", "predict">>
W5b == <<"medv", "medv", "mredov", "mredov", "val", "predict", "predict">>
W2b == <<"pref", "ord", "abs", "badbulk", "badbulk", "badbulk", "mutate", "reset">>
W2 == <<"pref", "ord", "abs", "badord", "badord", "badabs", "badabs", "badkind", "reset", "predict">>
W3 == <<"pref", "pref", "ord", "abs", "prior", "prior", "prune", "prune", "reset", "mutate">>
W3b == <<"flat", "flat", "flat", "pref", "abs", "prune", "mutate">>
W4 == <<"pref", "pref", "pref", "ord", "abs", "predict", "predict", "predict", "reset", "badabs", "mutate">>
W4p == <<"pref", "pref", "pref", "predict", "predict", "reset", "mutate">>
W5 == <<"val", "val", "predict", "predict", "reset", "mutate">>
W10 == <<"pref", "pref", "ord", "abs", "predict", "predict", "select", "select", "select", "gethyper", "best", "reset", "plarge">>
W10r == <<"pref", "ord", "abs", "prior", "prior", "predict", "select", "getprior", "getprior", "gethyper", "best", "prune">>
W10p == <<"pref", "pref", "pref", "predict", "predict", "select", "select", "select", "gethyper", "best", "plarge">>
W10g == <<"val", "val", "predict", "predict", "select", "select", "select", "gethyper", "best", "reset", "plarge">>
=============================================================================
