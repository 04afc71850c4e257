----------------------------- MODULE HyperDesign -----------------------------
(* Every history of additions, reads, writes and draws over a small kernel expression. *)
EXTENDS Hyper, TLC
CONSTANTS MaxOps, Vals
VARIABLES vals, data, cfg, got, n
vars == <<vals, data, cfg, got, n>>
Lay == Layout(cfg, data, vals)
Parts(kern) == <<<<1>>, <<1, 1>>, <<1, 1>>>> \o kern
Init == /\ \E k \in {<<<<1, 1>>>>, <<<<1>>, <<1>>>>} : vals = Parts(k)
        /\ data = {} /\ cfg \in [n1 : {0, 1}, n3 : {0, 1, 2}, only : {0, 1}] /\ got = <<>> /\ n = 0
Tick == n < MaxOps /\ n' = n + 1
AddData == Tick /\ \E k \in 1..3 : data' = data \cup {k} /\ got' = <<>> /\ UNCHANGED <<vals, cfg>>
Reset == Tick /\ data' = {} /\ got' = <<>> /\ UNCHANGED <<vals, cfg>>
Get == Tick /\ got' = <<Read(Lay, vals)>> /\ UNCHANGED <<vals, data, cfg>>
Set == Tick /\ \E x \in [1..Len(Lay) -> Vals] : vals' = Write(Lay, vals, x) /\ got' = <<x>> /\ UNCHANGED <<data, cfg>>
Draw == Tick /\ \E x \in [1..Len(Lay) -> Vals] :
          /\ vals' = Write(Lay, vals, [k \in DOMAIN x |-> IF Lay[k][1] = 2 THEN vals[2][Lay[k][2]] ELSE x[k]])
          /\ got' = <<>> /\ UNCHANGED <<data, cfg>>
Next == AddData \/ Reset \/ Get \/ Set \/ Draw
Spec == Init /\ [][Next]_vars
(* what was last read or written is what a read gives *)
RoundTrip == got # <<>> => Read(Lay, vals) = got[1]
WriteBack == Write(Lay, vals, Read(Lay, vals)) = vals
Distinct == \A i, j \in DOMAIN Lay : i # j => Lay[i] # Lay[j]
Ordered == \A i, j \in DOMAIN Lay : i < j => (Lay[i][1] < Lay[j][1] \/ (Lay[i][1] = Lay[j][1] /\ Lay[i][2] < Lay[j][2]))
OnlyTheirs == [][\A p \in DOMAIN vals : (p <= 3 /\ p \notin data) \/ (p > 3 /\ cfg.only = 1) => vals'[p] = vals[p]]_vars
DrawsOk == [][Draw => Drawn(Lay, vals, vals')]_vars
=============================================================================
