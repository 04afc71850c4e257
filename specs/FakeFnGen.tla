------------------------------ MODULE FakeFnGen ------------------------------
EXTENDS FakeFn, TLC, CSV, IOUtils, Json
CONSTANTS MaxLen, Kind
VARIABLES c, hist
R(S) == RandomElement(S)
Emit(h) == Len(h) < MaxLen \/ CSVWrite("%1$s", <<ToJson([c |-> c, acts |-> h])>>, IOEnv.OUT)
Low == IF Kind \in {"sqminmax", "static"} THEN 0 ELSE -2
Pool(d) == [1..d -> Low..4]
Init == hist = <<>> /\ \E d \in 1..4 : c = [kind |-> Kind, dim |-> d]
(* batch: rows of an (n, d) array; query: an (n, m, d) array given as rows with m; one: single point *)
Next == /\ Len(hist) < MaxLen
        /\ \E t \in {R(1..10)} : \E n \in {IF R(1..24) = 1 THEN R(66..140) ELSE R({1, 1, 2, 3, 5, 8})} : \E m \in {R(1..3)} :
           \E P \in {R([1..(IF t \in 6..8 THEN n * m ELSE IF t = 9 THEN 1 ELSE n) -> Pool(c.dim)])} :
             hist' = Append(hist, IF t = 10 /\ hist # <<>> THEN [op |-> "randomize", pts |-> <<>>, m |-> 0]
                                  ELSE IF t \in 6..8 /\ c.dim > 1 THEN [op |-> "queries", pts |-> P, m |-> m]
                                  ELSE IF t = 9 THEN [op |-> "one", pts |-> P, m |-> 0]
                                  ELSE [op |-> "batch", pts |-> P, m |-> 0])
        /\ Emit(hist') /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, hist>>
=============================================================================
