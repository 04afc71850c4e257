----------------------------- MODULE MixedDesign -----------------------------
(* Every sequence of calls and re-attachments with every class of outcome. *)
EXTENDS Mixed

CONSTANTS MaxCalls, MaxAttach
VARIABLES c, m, last, hist, nat
vars == <<c, m, last, hist, nat>>

Params == {[kind |-> k, p |-> p, step |-> s, al |-> al, lim |-> lim] :
             k \in Kinds, p \in {300000}, s \in {1, 2}, al \in {250, 500}, lim \in {0, 3}}
Inputs == {[u |-> u, sp |-> s[1], sa |-> s[2], same |-> b[1], similar |-> b[2]] :
             u \in {20137, 300137, 970137}, s \in {<<1, 1>>, <<1, 2>>, <<5, 2>>, <<2, 5>>, <<-1, -5>>},
             b \in {<<TRUE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, FALSE>>}}

Init == c \in Params /\ m = New /\ last = "none" /\ hist = <<>> /\ nat = 0

Call == /\ m.calls < MaxCalls
        /\ \E i \in Inputs : \E q \in Choice(c, m, i) :
              /\ last' = q /\ m' = After(c, m, i)
              /\ hist' = <<m.calls, m.mode, m'.mode, FarApart(i)>>
        /\ UNCHANGED <<c, nat>>
Attach == /\ nat < MaxAttach /\ m.calls > 0 /\ m' = New /\ last' = "none" /\ hist' = <<>> /\ nat' = nat + 1 /\ UNCHANGED c
Next == Call \/ Attach
Spec == Init /\ [][Next]_vars

TypeOk == m.mode \in {"draw", "abs", "pair"} /\ last \in {"none", "pair", "abs"}
FixedStart == (c.kind = "fixed" /\ last # "none") => ((m.calls <= 8) <=> (last = "abs"))
Alternates == (c.kind = "alt" /\ last # "none") => ((m.calls % 2 = 1) <=> (last = "pair"))
\* a committed mode lasts until the next decision point, and is only entered there
ModeSticky == hist # <<>> => (hist[2] # hist[3] => hist[1] \in {5, 10, 15})
ModeMeaning == (hist # <<>> /\ hist[1] \in {5, 10, 15} /\ c.kind \in {"decision", "decision2"}) =>
                 ((hist[3] # "draw") <=> hist[4]) /\ (hist[4] => last = hist[3])
ProbOk == c.kind \in {"mixed", "peak", "peak2", "peak3", "rev", "decision", "decision2"} =>
             Prob(c, m.calls) >= 0 /\ Prob(c, m.calls) <= 1000000
Declines == (c.kind \in {"peak", "peak2", "peak3", "decision"} /\ m.calls >= 2) => Prob(c, m.calls) >= Prob(c, m.calls + 1)
=============================================================================
