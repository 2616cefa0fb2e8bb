------------------------------ MODULE SchedTrace ----------------------------
(* Recorded histories of a schedule manager under a controlled clock.  Jobs    *)
(* may ask to be cancelled, raise, clear a tag or take the clock forward; a    *)
(* batch of runs is walked job by job.                                         *)
EXTENDS Sched, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k, jobs
vars == <<c, k, jobs>>
Has(js, id) == \E i \in 1..Len(js) : js[i].id = id
Put(js, j) == [i \in 1..Len(js) |-> IF js[i].id = j.id THEN j ELSE js[i]]
Without(js, id) == SelectSeq(js, LAMBDA x : x.id # id)
HasTag(j, tag) == \E i \in 1..Len(j.tags) : j.tags[i] = tag
NextOf(js, id, default) == IF Has(js, id) THEN js[CHOOSE i \in 1..Len(js) : js[i].id = id].next ELSE default
(* the queue q of runnable jobs against the runs seen from position i; after: the jobs seen at the end *)
RECURSIVE Batch(_, _, _, _, _, _, _)
Batch(js, q, t, runs, i, after, all) ==
    IF q = <<>> THEN [js |-> js, i |-> i, ok |-> TRUE, t |-> t, stop |-> FALSE]
    ELSE LET j == Head(q) IN
         IF Overdue(j, t) THEN Batch(Without(js, j.id), Tail(q), t, runs, i, after, all)
         ELSE IF i > Len(runs) \/ runs[i].id # j.id THEN [js |-> js, i |-> i, ok |-> FALSE, t |-> t, stop |-> FALSE]
         ELSE LET r == runs[i] t2 == t + r.took
                  cleared == IF r.does = "clear" THEN SelectSeq(js, LAMBDA x : ~HasTag(x, r.tag)) ELSE js
                  want == NextRuns(j, t2)
                  seen == NextOf(after, j.id, -1)
                  last == ~\E m \in (i + 1)..Len(runs) : runs[m].id = j.id
                  nx == IF last /\ seen \in want THEN seen ELSE CHOOSE x \in want : \A y \in want : x >= y
                  nj == [j EXCEPT !.next = nx]
                  js2 == IF r.does = "raise" THEN cleared
                         ELSE IF r.does \in {"cancel", "cancelobj"} \/ Overdue(nj, nj.next) THEN Without(cleared, j.id)
                         ELSE Put(cleared, nj)
              IN IF r.does = "raise" /\ ~all THEN [js |-> js2, i |-> i + 1, ok |-> TRUE, t |-> t2, stop |-> TRUE]
                 ELSE Batch(js2, Tail(q), t2, runs, i + 1, after, all)
Strip(js) == [i \in 1..Len(js) |-> <<js[i].id, js[i].next>>]
Seen(o) == [i \in 1..Len(o.after) |-> <<o.after[i].id, o.after[i].next>>]
TraceInit == c \in 1..Len(Cases) /\ k = 0 /\ jobs = <<>>
Resync(js, o) == [i \in 1..Len(o.after) |-> IF Has(js, o.after[i].id)
                    THEN [js[CHOOSE x \in 1..Len(js) : js[x].id = o.after[i].id] EXCEPT !.next = o.after[i].next]
                    ELSE [unit |-> "seconds", interval |-> 1, day |-> -1, at |-> -1, latest |-> -1, until |-> -1, tags |-> <<>>, next |-> o.after[i].next, id |-> o.after[i].id]]
Event ==
    /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
    /\ LET o == Cases[c].ops[k'] IN
       CASE o.op = "add" ->
              /\ Ok(c, "a new job is registered last with its next run", Len(o.after) = Len(jobs) + 1 /\ o.after[Len(o.after)].id = o.job.id /\ o.after[Len(o.after)].next \in NextRuns(o.job, o.now), [o |-> o, want |-> NextRuns(o.job, o.now)])
              /\ jobs' = Append(jobs, [o.job EXCEPT !.next = o.after[Len(o.after)].next])
         [] o.op \in {"tick", "all"} ->
              LET due == IF o.op = "all" THEN jobs ELSE Due(jobs, o.now)
                  q == IF o.async \/ o.op = "all" THEN due ELSE ByNext(due)
                  r == TLCEval(Batch(jobs, q, o.now, o.runs, 1, o.after, o.async /\ o.op = "tick"))
                  good == r.ok /\ r.i = Len(o.runs) + 1
              IN /\ Ok(c, "exactly the due jobs run, in order", good, [o |-> o, jobs |-> jobs])
                 /\ Ok(c, "jobs are rescheduled or gone as due", ~good \/ Strip(r.js) = Seen(o), [o |-> o, jobs |-> jobs, want |-> Strip(r.js)])
                 /\ Ok(c, "a raised cancellation comes through", o.raised = \E i \in 1..Len(o.runs) : o.runs[i].does = "raise", [o |-> o])
                 /\ jobs' = Resync(r.js, o)
         [] o.op = "clear" ->
              LET js == IF o.tag = "" THEN <<>> ELSE SelectSeq(jobs, LAMBDA x : ~HasTag(x, o.tag)) IN
              Ok(c, "clearing removes the tagged jobs", Strip(js) = Seen(o), [o |-> o, jobs |-> jobs]) /\ jobs' = js
         [] o.op = "drop" -> LET js == Without(jobs, o.id) IN Ok(c, "a cancelled job is gone", Strip(js) = Seen(o), [o |-> o]) /\ jobs' = js
         (* a loop: one batch for every turn, until a cancellation or the end asked for *)
         [] o.op = "loop" ->
              LET RECURSIVE Turns(_, _, _, _)
                  Turns(js, t, i, n) ==
                    IF n > o.turns THEN [js |-> js, i |-> i, ok |-> TRUE, n |-> n]
                    ELSE LET due == Due(js, t)
                             rest == SubSeq(o.runs, i, Len(o.runs))
                             r == TLCEval(Batch(js, IF o.async THEN due ELSE ByNext(due), t, rest, 1, <<>>, o.async))
                             raised == \E x \in 1..(r.i - 1) : rest[x].does = "raise"
                         IN IF ~r.ok \/ raised THEN [js |-> r.js, i |-> i + r.i - 1, ok |-> r.ok, n |-> n]
                            ELSE Turns(r.js, r.t + o.sleep, i + r.i - 1, n + 1)
                  r == TLCEval(Turns(jobs, o.now, 1, 1))
              IN /\ Ok(c, "the loop runs what is due at every turn until stopped", r.ok /\ r.i = Len(o.runs) + 1, [o |-> o, jobs |-> jobs, got |-> r.i])
                 /\ Ok(c, "the loop leaves the jobs rescheduled", Strip(r.js) = Seen(o), [o |-> o, want |-> Strip(r.js)])
                 /\ Ok(c, "the loop ends when asked", o.ended, [o |-> o])
                 /\ jobs' = Resync(r.js, o)
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ Emit(c) /\ UNCHANGED <<c, jobs>>
TraceNext == Event \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
