----------------------------- MODULE CommandRun -----------------------------
(***************************************************************************)
(* The order of things in a run: options, loading, loading elsewhere,      *)
(* analysis, output.  Every step that uses something outside the program   *)
(* can fail.  Checked for all combinations of what can be wrong.           *)
(***************************************************************************)
EXTENDS Naturals

VARIABLES wrong, phase, wrote, status

vars == <<wrong, phase, wrote, status>>

Things == {"options", "profile", "here", "elsewhere", "stdout", "differs"}

Init == wrong \in SUBSET Things /\ phase = "options" /\ wrote = FALSE /\ status = 9

Go(p) == phase' = p /\ UNCHANGED <<wrong, wrote, status>>
Fail == phase' = "end" /\ status' = 2 /\ UNCHANGED <<wrong, wrote>>

Options == phase = "options" /\ IF wrong \cap {"options", "profile"} # {} THEN Fail ELSE Go("load")
LoadStep == phase = "load" /\ (IF "here" \in wrong THEN Go("elsewhere") ELSE Go("analysis"))
LoadFault == phase \in {"load", "elsewhere"} /\ Fail
LoadElsewhere == phase = "elsewhere" /\ IF "elsewhere" \in wrong THEN Fail ELSE Go("analysis")
Analysis == phase = "analysis" /\ Go("output")
Output ==
  /\ phase = "output"
  /\ IF "stdout" \in wrong THEN Fail
     ELSE wrote' = TRUE /\ status' = (IF "differs" \in wrong THEN 1 ELSE 0) /\ phase' = "end" /\ UNCHANGED wrong

Next == Options \/ LoadStep \/ LoadFault \/ LoadElsewhere \/ Analysis \/ Output
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* A report is written exactly when nothing is wrong that matters.
Exact ==
  phase = "end" =>
    /\ wrote = (status # 2)
    /\ wrote => /\ wrong \cap {"options", "profile", "stdout"} = {}
                /\ ~({"here", "elsewhere"} \subseteq wrong)
                /\ (status = 1) = ("differs" \in wrong)
Ending == <>(phase = "end")
=============================================================================
