-------------------------------- MODULE FakeFn --------------------------------
(* A synthetic reward function: a table from points to values that is fixed until it is randomized. *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
(* values beyond 1000000000 stand for no number (or one too large) *)
Near(a, b, tol) == a <= 1000000000 /\ b <= 1000000000 /\ Abs(a - b) <= tol
Dot(w, x) == LET S[i \in 0..Len(w)] == IF i = 0 THEN 0 ELSE S[i - 1] + w[i] * x[i] IN S[Len(w)]
MaxS(s) == CHOOSE m \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= m
MinS(s) == CHOOSE m \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] >= m
Terms(w, x) == [i \in DOMAIN x |-> w[i] * x[i]]

(* the known form of a function: weights in millionths, integer points; value in millionths / unit *)
Form(kind, w, x) == CASE kind = "linear" -> Dot(w, x)
                      [] kind = "max" -> MaxS(Terms(w, x))
                      [] kind = "min" -> MinS(Terms(w, x))

(* the memory of values seen: a set of <<point, value>> *)
Consistent(mem, pts, vals, tol) ==
  /\ \A i \in DOMAIN pts : \A m \in mem : m[1] = pts[i] => Near(m[2], vals[i], tol)
  /\ \A i, j \in DOMAIN pts : pts[i] = pts[j] => Near(vals[i], vals[j], tol)
Remember(mem, pts, vals) == LET known == {m[1] : m \in mem}
                            IN mem \cup {<<pts[i], vals[i]>> : i \in {k \in DOMAIN pts : pts[k] \notin known /\ \A j \in 1..(k - 1) : pts[j] # pts[k]}}
=============================================================================
