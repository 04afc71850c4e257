---------------------------- MODULE ParetoDesign ----------------------------
(* The incremental algorithm: keep a list, take the next element, drop every other element that
   is not better anywhere.                                                                     *)
EXTENDS Pareto, TLC
CONSTANTS Points, MaxN
VARIABLES pts, live, at
vars == <<pts, live, at>>
P(i) == pts[i + 1]
Init == \E n \in 0..MaxN : \E p \in [1..n -> Points] :
          pts = p /\ live = [i \in 1..n |-> i - 1] /\ at = 1
Better(a, b) == \E i \in DOMAIN a : a[i] > b[i]
Keep(s, T(_)) == SelectSeq(s, T)
Step == /\ at <= Len(live)
        /\ LET c == live[at]
               ok(i) == i = c \/ Better(P(i), P(c))
               before == Len(SelectSeq(SubSeq(live, 1, at - 1), ok))
           IN live' = SelectSeq(live, ok) /\ at' = before + 2
        /\ UNCHANGED pts
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == at > Len(live)
Correct == Done => CSound(pts, live) /\ CCover(pts, live) /\ COnce(pts, live)
Covered == CCover(pts, live)
Finishes == <>Done
Pts2 == {0, 1, 2} \X {0, 1, 2}
=============================================================================
