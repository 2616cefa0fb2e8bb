-------------------------------- MODULE Rep --------------------------------
(* Output of verdicts and behaviours from TLC (java/Rep.java).  Both operators *)
(* are TRUE; a trace specification keeps going after a rejected event, so one  *)
(* run names every failing clause.                                             *)
EXTENDS Sequences
Report(v) == TRUE
Emit(v) == TRUE
(* Ok(id, clause, p, info): TRUE; reports the clause when p is FALSE *)
Ok(id, clause, p, info) ==
    IF p THEN TRUE ELSE Report([id |-> id, clause |-> clause, info |-> info])
=============================================================================
