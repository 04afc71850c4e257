--------------------------- MODULE PrefDataDesign ---------------------------
(* The design machine: every history of public operations on a small alphabet, with ghost
   variables that remember what the caller meant, and the cached fit of the library.      *)
EXTENDS PrefData

CONSTANTS PointSet, Ratings, Scores, MaxOps, MaxPts, Pareto

VARIABLES s,        \* the training data (PrefData)
          ids,      \* ghost: identity of each held point (parallel to s.pts)
          nid,      \* ghost: next identity
          facts,    \* ghost: bag (sequence) of what was said, in terms of identities
          fit,      \* the data the cached fit was made for ("none" if there is none)
          opt,      \* the cached fit is considered current
          lastp,    \* data the last prediction was made for (its output is a function of it)
          nops
vars == <<s, ids, nid, facts, fit, opt, lastp, nops>>

NoFit == [none |-> TRUE]
Data(t) == <<t.pts, t.prefs, t.ords, t.abss>>

Init == /\ s = Empty /\ ids = <<>> /\ nid = 0 /\ facts = <<>>
        /\ fit = NoFit /\ opt = FALSE /\ lastp = <<"prior", "prior">> /\ nops = 0

Batches == {<<p>> : p \in PointSet} \cup {<<p, q>> : p \in PointSet, q \in PointSet}
PairLabels(n) == IF n < 2 THEN {<<>>} ELSE {<<>>} \cup {<<(<<d, u, 1 - u>>)>> : d \in {-1, 1}, u \in {0, 1}}
Vec(S, n) == [1..n -> S]

NewIds(n) == [i \in 1..n |-> nid + i - 1]

DoAdd(kind, X, L) ==
    /\ Len(s.pts) + Len(X) <= MaxPts
    /\ LET n == Len(X)
           new == NewIds(n)
           all == ids \o new
           s2 == Add(s, kind, X, L, 0, Pareto)
           said == CASE kind = "pref" -> [i \in DOMAIN L |-> LET c == Canon(L[i]) IN <<"pref", new[c[1] + 1], new[c[2] + 1], 0>>]
                     [] kind = "ord"  -> [i \in DOMAIN L |-> <<"ord", new[i], new[i], L[i]>>]
                     [] kind = "abs"  -> [i \in DOMAIN L |-> <<"abs", new[i], new[i], Clamp(L[i])>>]
           \* declared independently of the index arithmetic of Add
           implied == IF ~Pareto THEN {}
                      ELSE {<<"pref", new[i], all[j], 0>> :
                              <<i, j>> \in {p \in (1..n) \X (1..Len(all)) : Gt(X[p[1]], (s.pts \o X)[p[2]])}}
       IN /\ s' = s2 /\ ids' = all /\ nid' = nid + n
          /\ facts' = facts \o said \o SetToSeq(implied)
    /\ opt' = FALSE
    /\ UNCHANGED <<fit, lastp>>

Tick == nops < MaxOps /\ nops' = nops + 1

AddPref == Tick /\ \E X \in Batches : \E L \in PairLabels(Len(X)) : DoAdd("pref", X, L)
AddOrd  == Tick /\ \E X \in Batches : \E L \in Vec(Ratings, Len(X)) : DoAdd("ord", X, L)
AddAbs  == Tick /\ \E X \in Batches : \E L \in Vec(Scores, Len(X)) : DoAdd("abs", X, L)
AddBad  == Tick /\ UNCHANGED <<s, ids, nid, facts, fit, opt, lastp>>
DoReset == /\ Tick /\ s' = Reset(s) /\ ids' = <<>> /\ facts' = <<>> /\ UNCHANGED <<nid, fit, opt, lastp>>

DoPrune ==
    /\ Tick
    /\ s' = Prune(s)
    /\ LET R == Referenced(s) IN
       ids' = [i \in 1..Cardinality(R) |-> ids[CHOOSE p \in R : Before(R, p) = i - 1]]
    /\ opt' = FALSE
    /\ UNCHANGED <<nid, facts, fit, lastp>>

DoPrior == Tick /\ \E X \in Batches :
    /\ Pareto /\ Len(s.pts) + Len(X) <= MaxPts
    /\ s' = AddPrior(s, X, TRUE)
    /\ LET n == Len(X)
           new == NewIds(n)
           all == ids \o new
           pts == s.pts \o X
           implied == {<<"pref", new[i], all[j], 0>> : <<i, j>> \in {p \in (1..n) \X (1..Len(all)) : Gt(X[p[1]], pts[p[2]])}}
           f2 == facts \o SetToSeq(implied)
           used == {f2[i][2] : i \in DOMAIN f2} \cup {f2[i][3] : i \in DOMAIN f2}
       IN /\ facts' = f2
          /\ ids' = SelectSeq(all, LAMBDA x : x \in used)
          /\ nid' = nid + n
    /\ opt' = FALSE
    /\ UNCHANGED <<fit, lastp>>

(* lazy fitting: refit only when the fit is not current; without data the prior is predicted *)
Predict ==
    /\ Tick
    /\ IF s.pts = <<>>
       THEN /\ lastp' = <<"prior", "prior">> /\ UNCHANGED <<fit, opt>>
       ELSE /\ fit' = IF opt THEN fit ELSE Data(s)
            /\ opt' = TRUE
            /\ lastp' = <<fit', Data(s)>>
    /\ UNCHANGED <<s, ids, nid, facts>>

Next == \/ AddPref \/ AddOrd \/ AddAbs \/ AddBad \/ DoReset \/ DoPrune \/ DoPrior \/ Predict

Spec == Init /\ [][Next]_vars

(* point alphabets for the configurations *)
Points3 == {<<0, 0>>, <<1, 1>>, <<1, 0>>}
Points2 == {<<0, 0>>, <<1, 1>>}
Points1d == {<<0>>, <<1>>}

(* ---- properties ---- *)
Resolved(t) == [i \in DOMAIN t.prefs |-> <<"pref", ids[t.prefs[i][1] + 1], ids[t.prefs[i][2] + 1], 0>>]
               \o [i \in DOMAIN t.ords |-> <<"ord", ids[t.ords[i][2] + 1], ids[t.ords[i][2] + 1], t.ords[i][1]>>]
               \o [i \in DOMAIN t.abss |-> <<"abs", ids[t.abss[i][2] + 1], ids[t.abss[i][2] + 1], t.abss[i][1]>>]
\* C01, C03: every label refers to the point it was given for, through additions and prunings
MeaningKept == Len(ids) = Len(s.pts) /\ SameBag(Resolved(s), facts)
InRange == \A i \in DOMAIN s.prefs : s.prefs[i][1] < Len(s.pts) /\ s.prefs[i][2] < Len(s.pts) /\ s.prefs[i][1] # s.prefs[i][2]
\* C03: the prior range is a range of the held points
PriorOk == s.prior = <<>> \/ (0 <= s.prior[1] /\ s.prior[1] <= s.prior[2] /\ s.prior[2] <= Len(s.pts))
\* C04: the last prediction was made from a fit for the data held at that time
FreshPrediction == lastp[1] = lastp[2]
\* points stay in the order given: identities increase
OrderKept == \A i \in 1..(Len(ids) - 1) : ids[i] < ids[i + 1]
ScoresClamped == \A i \in DOMAIN s.abss : s.abss[i][1] >= 1000 /\ s.abss[i][1] <= 999000
=============================================================================
