------------------------------ MODULE DataTrace -----------------------------
(* Recorded histories of Data objects: built, updated, indexed, read.           *)
EXTENDS Data, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k, data
vars == <<c, k, data>>
TraceInit == c \in 1..Len(Cases) /\ k = 0 /\ data = <<>>
Moved(ts, shift) == [i \in 1..Len(ts) |-> [ts[i] EXCEPT !.idx = [r \in 1..Len(ts[i].idx) |-> @[r] - shift]]]
Event ==
    /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
    /\ LET w == Cases[c] o == w.ops[k'] IN
       CASE o.op \in {"from", "update"} ->
              LET f == Moved(o.fetched, w.shift)
                  r == TLCEval(IF o.op = "from" THEN Align(f, w.mi, w.mc) ELSE Updated(data, f, w.mi, w.mc))
              IN /\ Ok(c, "refused exactly when it must be", o.ok = r.ok, [o |-> o, w |-> [mi |-> w.mi, mc |-> w.mc], before |-> data, want |-> r])
                 /\ Ok(c, IF o.op = "from" THEN "symbols are aligned" ELSE "updates are merged", ~(o.ok /\ r.ok) \/ o.after = r.data, [o |-> o, mi |-> w.mi, mc |-> w.mc, before |-> data, want |-> r.data])
                 /\ Ok(c, "the object updated is left as it was", o.before = data, [before |-> o.before, want |-> data])
                 /\ data' = IF o.ok THEN o.after ELSE data
         [] o.op = "index" ->
              LET r == TLCEval(Taken(data, o.rows, o.cols, o.kind)) IN
              /\ Ok(c, "the same rows of every symbol are selected", o.after = r, [o |-> o, before |-> data, want |-> r])
              /\ data' = IF o.keep THEN o.after ELSE data
         [] o.op = "concat" ->
              Ok(c, "symbols are put side by side", o.out = Concat(data), [o |-> o, want |-> Concat(data)]) /\ data' = data
         [] o.op = "get" ->
              LET all == Concat(data)
                  pick == [i \in 1..Len(o.which) |-> all[o.which[i]].rows]
              IN Ok(c, "get returns the columns asked for", o.out = pick, [o |-> o, want |-> pick]) /\ data' = data
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ Emit(c) /\ UNCHANGED <<c, data>>
TraceNext == Event \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
