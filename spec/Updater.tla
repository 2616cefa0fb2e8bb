------------------------------- MODULE Updater ------------------------------
(* A data updater run by a schedule: every run either updates the data,        *)
(* keeping what was fetched, or asks to stop, or fails.  Replayed for every    *)
(* outcome sequence.                                                           *)
EXTENDS Integers, Sequences, Rep
CONSTANT MaxRuns
VARIABLES outcomes, rows, state
vars == <<outcomes, rows, state>>
(* rows: the update that delivered each row; an update fetches the last row again and one more *)
Init == outcomes = <<>> /\ rows = <<0>> /\ state = "going"
Run(x) == /\ state = "going" /\ Len(outcomes) < MaxRuns /\ outcomes' = Append(outcomes, x)
          /\ CASE x = "more" -> rows' = [rows EXCEPT ![Len(rows)] = Len(outcomes')] \o <<Len(outcomes')>> /\ UNCHANGED state
               [] x = "same" -> rows' = [rows EXCEPT ![Len(rows)] = Len(outcomes')] /\ UNCHANGED state
               [] x = "stop" -> UNCHANGED rows /\ state' = "stopped"
               [] x = "fail" -> UNCHANGED rows /\ state' = "failed"
          /\ (state' # "going" \/ Len(outcomes') = MaxRuns => Emit([outcomes |-> outcomes', rows |-> rows', state |-> state']))
Next == \E x \in {"more", "same", "stop", "fail"} : Run(x)
Spec == Init /\ [][Next]_vars
Kept == \A i \in 1..Len(rows) : i < Len(rows) => rows[i] <= rows[i + 1]
Stopped == state = "stopped" => outcomes[Len(outcomes)] = "stop"
=============================================================================
