------------------------------ MODULE RecsTrace ------------------------------
EXTENDS Recs, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k, s
Parts == {"entries", "ndim", "own", "cols", "sorted", "idsorted", "agree"}
TraceInit == c \in 1..Len(Cases) /\ k = 0 /\ s = [w |-> Cases[c].w, e |-> Cases[c].e]
Event == /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
         /\ LET o == Cases[c].ops[k'] v == TLCEval(IF o.op = "look" THEN s ELSE Do(s, o)) IN
            /\ s' = v
            /\ IF o.op = "look" THEN LET w == TLCEval(Obs(s)) IN
                    /\ \A p \in Parts \ {"own", "cols"} : Ok(c, p \o " after a chain of operations", o.obs[p] = w[p], [op |-> o, want |-> w[p], part |-> p])
                    /\ \A b \in {"own", "cols"} : \A p \in DOMAIN w[b] : Ok(c, p \o " per column or group", o.obs[b][p] = w[b][p], [ops |-> k, got |-> o.obs[b][p], want |-> w[b][p], part |-> p])
                    /\ \A b \in {"own", "cols"} : \A q \in DOMAIN o.freq[b] : LET f == o.freq[b][q] want == TLCEval(Freq(s, b = "own", f)) IN Ok(c, "value counts per column or group", f.got = want, [op |-> f, want |-> want])
               ELSE TRUE
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ Emit(c) /\ UNCHANGED <<c, s>>
TraceNext == Event \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_<<c, k, s>>
=============================================================================
