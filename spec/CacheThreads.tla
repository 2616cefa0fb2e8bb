----------------------------- MODULE CacheThreads ---------------------------
(* Threads reading one cached property: look, lock, look again, compute,       *)
(* store.  The function runs once and all get its value, whatever the order.   *)
EXTENDS Integers, FiniteSets, Rep
CONSTANT Threads
VARIABLES pc, lock, cache, calls, got, log
vars == <<pc, lock, cache, calls, got, log>>
Init == pc = [t \in Threads |-> "look"] /\ lock = 0 /\ cache = 0 /\ calls = 0 /\ got = [t \in Threads |-> 0] /\ log = <<>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Look(t) == pc[t] = "look" /\ log' = Append(log, <<t, "look">>) /\ UNCHANGED <<lock, cache, calls>>
           /\ IF cache # 0 THEN Go(t, "done") /\ got' = [got EXCEPT ![t] = cache] ELSE Go(t, "wait") /\ UNCHANGED got
Lock(t) == pc[t] = "wait" /\ lock = 0 /\ lock' = t /\ UNCHANGED <<cache, calls, log>>
           /\ IF cache # 0 THEN Go(t, "free") /\ got' = [got EXCEPT ![t] = cache] ELSE Go(t, "in") /\ UNCHANGED got
Compute(t) == pc[t] = "in" /\ calls' = calls + 1 /\ cache' = calls' /\ got' = [got EXCEPT ![t] = calls'] /\ Go(t, "free") /\ log' = Append(log, <<t, "return">>) /\ UNCHANGED lock
Free(t) == pc[t] = "free" /\ lock' = 0 /\ Go(t, "done") /\ UNCHANGED <<cache, calls, got, log>>
Finish == \A t \in Threads : pc[t] = "done" /\ Emit(log) /\ UNCHANGED vars
Next == (\E t \in Threads : Look(t) \/ Lock(t) \/ Compute(t) \/ Free(t))
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Look(t) \/ Lock(t) \/ Compute(t) \/ Free(t))
Once == calls <= 1
Agree == \A t \in Threads : pc[t] = "done" => got[t] = 1
OneIn == Cardinality({t \in Threads : pc[t] \in {"in", "free"}}) <= 1
Ends == <>(\A t \in Threads : pc[t] = "done")
=============================================================================
