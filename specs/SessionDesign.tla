---------------------------- MODULE SessionDesign ----------------------------
(* Every short session: queries chosen freely, answered by a choice, a ranking or ratings, answers that are
   refused, points added without an answer, and starting over.  log remembers who beat whom.           *)
EXTENDS Session, TLC
CONSTANTS Pool, MaxRounds, MaxQuery
VARIABLES held, ask, log, rounds
vars == <<held, ask, log, rounds>>
Seqs == UNION {[1..m -> Pool] : m \in 1..MaxQuery}
Queries == {s \in Seqs : Distinct(s)}
Init == held = Empty /\ ask = <<>> /\ log = <<>> /\ rounds = 0
Ask == ask = <<>> /\ rounds < MaxRounds /\ ask' \in Queries /\ rounds' = rounds + 1 /\ UNCHANGED <<held, log>>
Over(w) == [k \in 1..(Len(ask) - 1) |-> <<-1, w, IF k - 1 < w THEN k - 1 ELSE k>>]
Choose == /\ Len(ask) > 1
          /\ \E w \in 0..(Len(ask) - 1) : /\ held' = Compared(held, ask, Over(w))
                                          /\ log' = Append(log, [kind |-> "choice", items |-> ask, best |-> ask[w + 1]])
          /\ ask' = <<>> /\ UNCHANGED rounds
Rank == /\ Len(ask) = 2
        /\ held' = Compared(held, ask, <<IF ask[1] > ask[2] THEN <<-1, 0, 1>> ELSE <<1, 0, 1>>>>)
        /\ log' = Append(log, [kind |-> "choice", items |-> ask, best |-> IF ask[1] > ask[2] THEN ask[1] ELSE ask[2]])
        /\ ask' = <<>> /\ UNCHANGED rounds
Rate == /\ Len(ask) = 1
        /\ \E r \in {0, 500000} : held' = Rated(held, ask, <<r>>) /\ log' = Append(log, [kind |-> "rate", items |-> ask, best |-> Clamp(r)])
        /\ ask' = <<>> /\ UNCHANGED rounds
Refused == ask # <<>> /\ rounds < MaxRounds /\ rounds' = rounds + 1 /\ UNCHANGED <<held, ask, log>>
Show == /\ ask = <<>> /\ rounds < MaxRounds /\ rounds' = rounds + 1
        /\ \E x \in Pool : held' = Compared(held, <<x>>, <<>>) /\ log' = Append(log, [kind |-> "show", items |-> <<x>>, best |-> 0])
        /\ UNCHANGED ask
Over0 == held # Empty /\ ask = <<>> /\ rounds < MaxRounds /\ rounds' = rounds + 1 /\ held' = Empty /\ log' = <<>> /\ UNCHANGED ask
Next == Ask \/ Choose \/ Rank \/ Rate \/ Refused \/ Show \/ Over0
Spec == Init /\ [][Next]_vars
Flat(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE S[i - 1] \o s[i] IN S[Len(s)]
Sum(s) == LET S[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE S[i - 1] + s[i] IN S[Len(s)]
At(k) == Len(Flat([i \in 1..(k - 1) |-> log[i].items]))       \* points before round k of the log
NothingLost == held.pts = Flat([k \in DOMAIN log |-> log[k].items])
Formed == WellFormed(held)
CountsAdd == /\ Len(held.prefs) = Sum([k \in DOMAIN log |-> IF log[k].kind = "choice" THEN Len(log[k].items) - 1 ELSE 0])
             /\ Len(held.rats) = Sum([k \in DOMAIN log |-> IF log[k].kind = "rate" THEN 1 ELSE 0])
Right == \A k \in DOMAIN log :
           /\ log[k].kind = "choice" => \A i \in DOMAIN log[k].items : log[k].items[i] # log[k].best =>
                Cardinality({n \in DOMAIN held.prefs : held.pts[Winner(held.prefs[n]) + 1] = log[k].best /\ Loser(held.prefs[n]) = At(k) + i - 1}) = 1
           /\ log[k].kind = "rate" => \E n \in DOMAIN held.rats : held.rats[n] = <<log[k].best, At(k)>>
OwnRound == \A n \in DOMAIN held.prefs : \E k \in DOMAIN log : {Winner(held.prefs[n]), Loser(held.prefs[n])} \subseteq At(k)..(At(k) + Len(log[k].items) - 1)
Grows == [][ask' # ask \/ held' # held \/ rounds' # rounds => (Len(held'.pts) >= Len(held.pts) \/ held' = Empty)]_vars
=============================================================================
