-------------------------------- MODULE Heir --------------------------------
(* What metrics and subplots an object has on its own.  A new object starts    *)
(* with those of its class; changes stay with the object and live on in what   *)
(* is made of it from then on (copies, selections, regroupings, pickles), and  *)
(* nowhere else.  0 = absent, else the version put last; kin = -1 is the       *)
(* class's own entry.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Tabs == {"metrics", "subplots"}
Names == {"kin", "n1", "n2"}
Class == [t \in Tabs |-> [n \in Names |-> IF n = "kin" THEN -1 ELSE 0]]
Do(objs, op) ==
    CASE op.op = "put" -> [objs EXCEPT ![op.x][op.t][op.n] = op.v]
      [] op.op = "drop" -> [objs EXCEPT ![op.x][op.t][op.n] = 0]
      [] op.op = "reset" -> [objs EXCEPT ![op.x][op.t] = Class[op.t]]
      [] op.op = "copy" -> Append(objs, objs[op.x])
      [] op.op = "new" -> Append(objs, Class)
Can(objs, op) == IF op.op = "new" THEN TRUE ELSE op.x \in DOMAIN objs /\ (op.op = "drop" => objs[op.x][op.t][op.n] # 0)
=============================================================================
