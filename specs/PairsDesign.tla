----------------------------- MODULE PairsDesign -----------------------------
(* Generators that emit one comparison at a time, over every value assignment and reference. *)
EXTENDS Pairs, TLC
CONSTANTS MaxN, Values
VARIABLES y, mode, ref, todo, out
vars == <<y, mode, ref, todo, out>>
Init == \E n \in 1..MaxN : \E f \in [1..n -> Values] : \E m \in {"choice", "reference", "ranking"} : \E r \in 0..(n - 1) :
          /\ y = f /\ mode = m /\ ref = r /\ out = <<>>
          /\ todo = IF m = "ranking" THEN AllPairs(0..(n - 1)) ELSE Against(r, 0..(n - 1))
Pick(e, w) == LET l == CHOOSE x \in e : x # w IN {<<-1, w, l>>, <<1, l, w>>}
Choice == /\ mode = "choice"
          /\ \E e \in todo : \E p \in Pick(e, ref) : out' = Append(out, p) /\ todo' = todo \ {e}
          /\ UNCHANGED <<y, mode, ref>>
Valued == /\ mode # "choice"
          /\ \E e \in todo : \E w \in e : /\ \A x \in e : y[w + 1] >= y[x + 1]
                                          /\ \E p \in Pick(e, w) : out' = Append(out, p)
                                          /\ todo' = todo \ {e}
          /\ UNCHANGED <<y, mode, ref>>
Next == Choice \/ Valued
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
N == Len(y)
Sound == /\ WellFormed(out) /\ Len(out) + Cardinality(todo) = IF mode = "ranking" THEN Cardinality(AllPairs(0..(N - 1))) ELSE N - 1
         /\ (mode # "choice" => RightWinner(out, y))
Complete == todo = {} => CASE mode = "choice" -> FromChoice(out, ref, 0..(N - 1))
                           [] mode = "reference" -> FromReference(out, ref, y)
                           [] mode = "ranking" -> FromRanking(out, y)
(* comparisons that follow the values have no cycle of strict ones: a best item never loses to a lower one *)
NoUpset == mode = "choice" \/ \A i \in DOMAIN out : ~ y[Loser(out[i]) + 1] > y[Winner(out[i]) + 1]
Ends == <>(todo = {})
=============================================================================
