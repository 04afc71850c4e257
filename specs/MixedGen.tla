------------------------------ MODULE MixedGen ------------------------------
EXTENDS Mixed, TLC, CSV, IOUtils, Json
CONSTANTS MaxLen, Kind,
  Far   \* 1: a long history (few attachments, draws often near the far tail of the schedules)
VARIABLES c, hist
R(S) == RandomElement(S)
Emit(h) == Len(h) < MaxLen \/ CSVWrite("%1$s", <<ToJson([c |-> c, acts |-> h])>>, IOEnv.OUT)

Init == /\ hist = <<>>
        /\ c = [kind |-> Kind, p |-> R({0, 150000, 300000, 500000, 800000, 1000000}), step |-> R({1, 2}),
                al |-> R({0, 250, 500, 750, 1000}), lim |-> R({0, 1, 2, 3, 5, 8})]
Scores(sg) == IF sg = 1 THEN R({<<1, 1>>, <<1, 2>>, <<2, 1>>, <<4, 1>>, <<1, 4>>, <<5, 2>>, <<2, 5>>, <<3, 3>>, <<9, 1>>, <<1, 9>>, <<3, 2>>, <<2, 3>>})
              ELSE IF sg = 2 THEN R({<<-1, -1>>, <<-1, -2>>, <<-2, -1>>, <<-4, -1>>, <<-1, -4>>, <<-5, -2>>, <<-2, -5>>})
              ELSE <<0, 0>>
Next == /\ Len(hist) < MaxLen
        /\ \E t \in {R(1..(IF Far = 1 THEN 90 ELSE 14))} : \E s \in {Scores(R({1, 1, 1, 1, 2, 2, 3}))} : \E b \in {R(0..3)} : \E u \in {R(R({0..999, IF Far = 1 THEN 0..20 ELSE 0..999}))} :
           \E k \in {R(1..3)} : \E o \in {R(0..7)} :
             hist' = Append(hist, IF t = 1 /\ hist # <<>>
                                  THEN [op |-> "attach", u |-> 0, sp |-> 0, sa |-> 0, same |-> 0, similar |-> 0, k |-> 0, o |-> 0]
                                  ELSE [op |-> "call", u |-> u * 1000 + 137, sp |-> s[1], sa |-> s[2], same |-> b % 2,
                                        similar |-> b \div 2, k |-> IF c.kind = "eqcheck" THEN 2 ELSE k, o |-> o])
        /\ Emit(hist') /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, hist>>
=============================================================================
