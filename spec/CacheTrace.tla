------------------------------ MODULE CacheTrace ----------------------------
(* Recorded histories of calls, clears, switches, conditions and copies.       *)
EXTENDS Cache, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k, st
vars == <<c, k, st>>
Cond(x) == [x EXCEPT !.flags = {<<x.flags[j][1], x.flags[j][2]>> : j \in 1..Len(x.flags)}]
TraceInit == c \in 1..Len(Cases) /\ k = 0 /\ st = Fresh([o \in {"a1", "a2", "b1"} |-> IF o = "b1" THEN "B" ELSE "A"])
Event == /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
         /\ LET o == Cases[c].ops[k'] IN
            IF o.op = "call"
            THEN LET r == TLCEval(Call(st, o)) IN
                 /\ Ok(c, "a call returns the cached value exactly when there is one and it may be used", r.val = o.got, [o |-> o, want |-> r.val, st |-> st])
                 /\ Ok(c, "a value belongs to its object, function and argument", o.own, [o |-> o])
                 /\ Ok(c, "calls of the function are the misses", r.st.n = o.calls, [o |-> o, want |-> r.st.n])
                 /\ st' = [r.st EXCEPT !.n = o.calls,
                              !.cache[o.obj][o.name] = [j \in 1..Len(@) |-> IF @[j].key = Key(Fun(st.cls[o.obj], o.name), o.arg) /\ @[j].val = r.val THEN [@[j] EXCEPT !.val = o.got] ELSE @[j]]]
            ELSE st' = Set(st, IF "cond" \in DOMAIN o THEN [o EXCEPT !.cond = Cond(@)] ELSE o)
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ Emit(c) /\ UNCHANGED <<c, st>>
TraceNext == Event \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
