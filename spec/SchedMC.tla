------------------------------- MODULE SchedMC ------------------------------
(* (1) every sequence of up to four arguments of `every`; (2) every pair of    *)
(* jobs of a catalogue under every short sequence of steps of the clock.       *)
EXTENDS Sched, Rep
CONSTANTS What, Start, Steps, MaxSteps
VARIABLES args, jobs, now, steps, seen
vars == <<args, jobs, now, steps, seen>>
A(kind, v, delta, unit, single, units, text) == [kind |-> kind, v |-> v, delta |-> delta, unit |-> unit, single |-> single, units |-> units, text |-> text]
Args == {A("interval", 1, FALSE, "", FALSE, {}, "1"), A("interval", 3, FALSE, "", FALSE, {}, "3"), A("interval", 7200, TRUE, "", FALSE, {}, "td7200"),
         A("interval", 604800, TRUE, "", FALSE, {}, "td604800"),
         A("unit", 0, FALSE, "minutes", TRUE, {}, "minute"), A("unit", 0, FALSE, "hours", FALSE, {}, "hours"), A("unit", 0, FALSE, "days", TRUE, {}, "day"), A("unit", 0, FALSE, "weeks", FALSE, {}, "weeks"),
         A("unit", 0, FALSE, "seconds", FALSE, {}, "seconds"),
         A("day", 0, FALSE, "", FALSE, {}, "monday"), A("day", 4, FALSE, "", FALSE, {}, "friday"),
         A("at", 37800, FALSE, "", FALSE, {"days", "weeks"}, "10:30"), A("at", 17, FALSE, "", FALSE, {"minutes"}, ":17"), A("at", 43200, FALSE, "", FALSE, {"days", "weeks"}, "t12:00"),
         A("at", 37800, FALSE, "", FALSE, {"days", "weeks"}, "t12:30+2"), A("junk", 0, FALSE, "", FALSE, {}, "fortnight")}
Parse == /\ What = "parse" /\ Len(args) < 4
         /\ \E a \in Args : args' = Append(args, a)
         /\ Emit([args |-> [i \in 1..Len(args') |-> args'[i].text], ok |-> InOrder(args'), suits |-> InOrder(args') /\ Suits(args'), p |-> Parsed(args'),
                  next |-> IF InOrder(args') /\ Suits(args') THEN NextRun(Parsed(args'), Parsed(args').interval, now) ELSE 0])
         /\ UNCHANGED <<jobs, now, steps, seen>>
J(unit, interval, day, at, until) == [unit |-> unit, interval |-> interval, day |-> day, at |-> at, latest |-> -1, until |-> until, next |-> 0, id |-> 0]
Catalogue == {J("seconds", 1, -1, -1, -1), J("seconds", 45, -1, -1, Start + 100), J("minutes", 1, -1, 17, -1), J("minutes", 2, -1, -1, -1), J("hours", 1, -1, 1830, -1),
              J("hours", 5, -1, -1, -1), J("days", 1, -1, 37800, -1), J("days", 2, -1, 37800, Start + 4 * 86400), J("weeks", 1, 0, 43200, -1), J("weeks", 1, 4, -1, -1), J("weeks", 1, 2, 30000, -1)}
Add(j, id) == [j EXCEPT !.next = NextRun(j, j.interval, Start), !.id = id]
RECURSIVE RunAll(_, _, _)
(* the due jobs run in turn: rescheduled, or gone when their time is over *)
RunAll(js, q, t) ==
    IF q = <<>> THEN [js |-> js, ran |-> <<>>]
    ELSE LET j == Head(q)
             gone == SelectSeq(js, LAMBDA x : x.id # j.id)
             nj == [j EXCEPT !.next = NextRun(j, j.interval, t)]
             js2 == IF Overdue(j, t) \/ Overdue(nj, nj.next) THEN gone ELSE [i \in 1..Len(js) |-> IF js[i].id = j.id THEN nj ELSE js[i]]
             rest == TLCEval(RunAll(js2, Tail(q), t))
         IN [js |-> rest.js, ran |-> (IF Overdue(j, t) THEN <<>> ELSE <<j.id>>) \o rest.ran]
Tick == /\ What = "run" /\ Len(steps) < MaxSteps
        /\ \E d \in Steps : LET t == now + d r == TLCEval(RunAll(jobs, ByNext(Due(jobs, t)), t)) IN
             /\ now' = t /\ jobs' = r.js /\ steps' = Append(steps, d)
             /\ seen' = Append(seen, [ran |-> r.ran, next |-> [i \in 1..Len(r.js) |-> <<r.js[i].id, r.js[i].next>>]])
             /\ (Len(steps') = MaxSteps => Emit([jobs |-> args, steps |-> steps', seen |-> seen']))
        /\ UNCHANGED args
Init == \/ What = "parse" /\ args = <<>> /\ jobs = <<>> /\ now = Start /\ steps = <<>> /\ seen = <<>>
        \/ What = "run" /\ \E a, b \in Catalogue : args = <<a, b>> /\ jobs = TLCEval(<<Add(a, 1), Add(b, 2)>>) /\ now = Start /\ steps = <<>> /\ seen = <<>>
Next == Parse \/ Tick
Spec == Init /\ [][Next]_vars
(* the next run lies ahead, on the weekday and time asked for, and no earlier matching time was skipped *)
Fits(j, t) == (j.day >= 0 => Weekday(t) = j.day) /\ (j.at >= 0 => t = MoveAt(t, j.unit, j.at))
Inv == \A i \in 1..Len(jobs) : LET j == jobs[i] IN
         /\ (Len(steps) > 0 => j.next > now \/ j.next > now) /\ Fits(j, j.next)
         /\ (Len(steps) > 0 => ~Overdue(j, j.next))
         /\ (j.at >= 0 /\ j.interval = 1 => j.next - now <= Sec(j.unit))
(* an independent definition: with interval one, the earliest later time that fits *)
Earliest == \A i \in 1..Len(jobs) : LET j == jobs[i] IN
         (Len(steps) = 0 /\ j.at >= 0 /\ j.interval = 1 /\ j.unit \in {"minutes", "hours"}) => \A t \in (Start + 1)..(j.next - 1) : ~Fits(j, t)
=============================================================================
