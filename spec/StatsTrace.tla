----------------------------- MODULE StatsTrace -----------------------------
(* Recorded tables of statistics against Stats.tla.                            *)
EXTENDS Stats, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
TraceInit == c \in 1..Len(Cases) /\ k = 0
Look == /\ k = 0 /\ k' = 1 /\ c' = c
        /\ LET x == Cases[c] w == TLCEval(Table(x.o, x.c)) g == x.got IN
           /\ Ok(c, "errors of a table of statistics", g.e = w.e, [want |-> w, got |-> g])
           /\ g.e = w.e => /\ Ok(c, "warnings of a table of statistics", g.warns = w.warns, [want |-> w.warns, got |-> g.warns])
                           /\ Ok(c, "form of a table of statistics", g.kind = w.kind /\ g.name = w.name, [want |-> w, got |-> g])
                           /\ Ok(c, "rows of a table of statistics", [i \in DOMAIN g.rows |-> g.rows[i].t] = [i \in DOMAIN w.rows |-> w.rows[i].t], [want |-> w.rows, got |-> g.rows])
                           /\ Ok(c, "values of a table of statistics", g.rows = w.rows, [want |-> w.rows, got |-> g.rows])
Done == k = 1 /\ k' = 2 /\ c' = c /\ Emit(c)
TraceSpec == TraceInit /\ [][Look \/ Done]_<<c, k>>
=============================================================================
