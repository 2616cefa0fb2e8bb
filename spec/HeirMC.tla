------------------------------- MODULE HeirMC -------------------------------
EXTENDS Heir, Rep
CONSTANT Steps
VARIABLES objs, prog
vars == <<objs, prog>>
(* the last step puts or copies are told apart by their number *)
Ops(n) == {[op |-> "put", x |-> x, t |-> t, n |-> m, v |-> n] : x \in DOMAIN objs, t \in Tabs, m \in {"kin", "n1"}}
     \cup {[op |-> "drop", x |-> x, t |-> t, n |-> m] : x \in DOMAIN objs, t \in Tabs, m \in Names}
     \cup {[op |-> "reset", x |-> x, t |-> t] : x \in DOMAIN objs, t \in Tabs}
     \cup {[op |-> "copy", x |-> x] : x \in DOMAIN objs} \cup {[op |-> "new"]}
Init == objs = <<Class>> /\ prog = <<>>
Next == /\ Len(prog) < Steps
        /\ \E op \in Ops(Len(prog) + 1) : /\ Can(objs, op) /\ objs' = Do(objs, op) /\ prog' = Append(prog, [o |-> op, want |-> objs'])
        /\ (IF Len(prog') = Steps THEN Emit(prog') ELSE TRUE)
Spec == Init /\ [][Next]_vars
(* a change shows in one object and one table only *)
Local == [][LET op == prog'[Len(prog')].o IN \A i \in DOMAIN objs : \A t \in Tabs : (IF op.op \in {"copy", "new"} THEN TRUE ELSE i # op.x \/ t # op.t) => objs'[i][t] = objs[i][t]]_vars
Heirs == [][LET op == prog'[Len(prog')].o IN op.op = "copy" => objs'[Len(objs')] = objs[op.x]]_vars
=============================================================================
