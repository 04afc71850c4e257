------------------------------ MODULE AskDesign ------------------------------
(* Asking a model: predictions that fit lazily, plain selections that predict, and selections that
   need the model fit to part of its data for a while (the alignment decision).  Every step of such
   a selection may fail.  Asking must leave the data as they were and the next prediction must be
   one made from all of them.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxData, MaxOps
Kinds == {"pref", "abs"}
VARIABLES data,      \* [kind -> number of labels]: what the model holds
          fit,       \* the data the fit was made for, or "none"
          opt,       \* the fit counts as current
          saved,     \* what a selection in progress put aside
          pc,        \* "idle", or the stage of the selection
          told,      \* ghost: what the caller gave
          out,       \* the data the last prediction was made from
          n
vars == <<data, fit, opt, saved, pc, told, out, n>>
NoData == [k \in Kinds |-> 0]
Init == /\ data = NoData /\ told = NoData /\ saved = NoData /\ fit = <<>> /\ opt = FALSE /\ pc = "idle" /\ out = <<>> /\ n = 0
Tick == n < MaxOps /\ n' = n + 1
Add == /\ pc = "idle" /\ Tick
       /\ \E k \in Kinds : data[k] < MaxData /\ data' = [data EXCEPT ![k] = @ + 1] /\ told' = data'
       /\ opt' = FALSE /\ UNCHANGED <<fit, saved, pc, out>>
Reset == pc = "idle" /\ Tick /\ data' = NoData /\ told' = NoData /\ opt' = FALSE /\ UNCHANGED <<fit, saved, pc, out>>
Fit == fit' = <<data>> /\ opt' = TRUE
Ask == (IF data = NoData THEN UNCHANGED <<fit, opt>> /\ out' = <<NoData>>
        ELSE IF opt THEN UNCHANGED <<fit, opt>> /\ out' = fit ELSE Fit /\ out' = <<data>>)
Predict == pc = "idle" /\ Tick /\ Ask /\ UNCHANGED <<data, saved, pc, told>>
Select == pc = "idle" /\ Tick /\ Ask /\ UNCHANGED <<data, saved, pc, told>>
Begin == pc = "idle" /\ Tick /\ pc' = "hide abs" /\ saved' = data /\ UNCHANGED <<data, fit, opt, told, out>>
HideAbs == /\ pc = "hide abs" /\ data' = [data EXCEPT !["abs"] = 0] /\ fit' = <<data'>> /\ opt' = TRUE /\ pc' = "hide pref"
           /\ UNCHANGED <<saved, told, out, n>>
HidePref == /\ pc = "hide pref" /\ data' = [saved EXCEPT !["pref"] = 0] /\ fit' = <<data'>> /\ opt' = TRUE /\ pc' = "restore"
            /\ UNCHANGED <<saved, told, out, n>>
Back == data' = saved /\ opt' = FALSE /\ pc' = "idle" /\ UNCHANGED <<fit, saved, told, out, n>>
Restore == pc = "restore" /\ Back
Fails == pc \in {"hide abs", "hide pref", "restore"} /\ Back
Next == Add \/ Reset \/ Predict \/ Select \/ Begin \/ HideAbs \/ HidePref \/ Restore \/ Fails
Spec == Init /\ [][Next]_vars /\ WF_vars(HideAbs \/ HidePref \/ Restore)
Kept == pc = "idle" => data = told
Current == pc = "idle" /\ opt /\ data # NoData => fit = <<data>>
(* a prediction is made from everything told *)
Whole == [][Predict => out' = <<told>>]_vars
AskingKeeps == [][told' = told]_<<out, fit>> 
Ends == pc # "idle" ~> pc = "idle"
=============================================================================
