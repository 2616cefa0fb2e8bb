-------------------------------- MODULE Sched -------------------------------
(* The scheduler.  Time is in seconds from a Monday midnight.  A job has a     *)
(* unit, an interval, a weekday (0 Monday .. 6, or -1), a time within the unit *)
(* (or -1), the largest interval when drawn at random (or -1), the time until  *)
(* which it may run (or -1), tags, and the time of its next run.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Units == {"seconds", "minutes", "hours", "days", "weeks"}
Sec(unit) == CASE unit = "seconds" -> 1 [] unit = "minutes" -> 60 [] unit = "hours" -> 3600 [] unit = "days" -> 86400 [] unit = "weeks" -> 604800
Weekday(t) == (t \div 86400) % 7
MoveDay(t, d) == t + 86400 * ((d - Weekday(t) + 7) % 7)
MoveAt(t, unit, at) == LET span == IF unit = "weeks" THEN 86400 ELSE Sec(unit) IN t - (t % span) + at
RECURSIVE After(_, _, _)
After(t, now, period) == IF t > now THEN t ELSE After(t + period * ((now - t) \div period + 1), now, period)
NextRun(j, interval, now) ==
    LET a == IF j.day >= 0 THEN MoveDay(now, j.day) ELSE now
        b == IF j.at >= 0 THEN MoveAt(a, j.unit, j.at) ELSE a
        p == interval * Sec(j.unit)
    IN After(IF interval # 1 THEN b + p ELSE b, now, p)
(* the times allowed: one, or one for each interval that may be drawn *)
NextRuns(j, now) == {NextRun(j, n, now) : n \in IF j.latest >= 0 THEN j.interval..j.latest ELSE {j.interval}}
Overdue(j, t) == j.until >= 0 /\ t > j.until
Due(jobs, now) == SelectSeq(jobs, LAMBDA j : j.next <= now)
(* due jobs by the time they were due, equal ones in order of registration *)
RECURSIVE ByNext(_)
ByNext(q) == IF q = <<>> THEN <<>>
             ELSE LET m == CHOOSE i \in 1..Len(q) : \A k \in 1..Len(q) : q[i].next < q[k].next \/ (q[i].next = q[k].next /\ i <= k)
                  IN <<q[m]>> \o ByNext(SubSeq(q, 1, m - 1) \o SubSeq(q, m + 1, Len(q)))
(* what the arguments of `every` mean: kinds interval, unit, day, at in this order, each at most once *)
KindRank(kind) == CASE kind = "interval" -> 1 [] kind = "unit" -> 2 [] kind = "day" -> 3 [] kind = "at" -> 4 [] OTHER -> 0
InOrder(args) == /\ \A i \in 1..Len(args) : KindRank(args[i].kind) > 0
                 /\ \A i \in 1..(Len(args) - 1) : KindRank(args[i].kind) < KindRank(args[i + 1].kind)
ArgOf(args, kind) == LET S == {i \in 1..Len(args) : args[i].kind = kind} IN IF S = {} THEN <<>> ELSE <<args[CHOOSE i \in S : TRUE]>>
Parsed(args) ==
    LET iv == ArgOf(args, "interval") un == ArgOf(args, "unit") dy == ArgOf(args, "day") at == ArgOf(args, "at")
        unit == IF dy # <<>> THEN "weeks" ELSE IF un # <<>> THEN un[1].unit ELSE IF at # <<>> THEN "days" ELSE "seconds"
        n == IF iv = <<>> THEN 1 ELSE IF iv[1].delta THEN iv[1].v \div Sec(unit) ELSE iv[1].v
    IN [unit |-> unit, interval |-> n, day |-> IF dy = <<>> THEN -1 ELSE dy[1].v, at |-> IF at = <<>> THEN -1 ELSE at[1].v]
(* what the package beneath refuses: a single unit or a weekday with another interval, a time that does not suit the unit *)
Suits(args) ==
    LET p == Parsed(args) un == ArgOf(args, "unit") at == ArgOf(args, "at") iv == ArgOf(args, "interval") IN
    /\ (un # <<>> /\ un[1].single => p.interval = 1)
    /\ (p.day >= 0 => p.interval = 1)
    /\ (at # <<>> => p.unit \in at[1].units)
    /\ (at # <<>> /\ p.unit = "weeks" => p.day >= 0)
    /\ (iv # <<>> /\ iv[1].delta => iv[1].v % Sec(p.unit) = 0 /\ iv[1].v > 0)
=============================================================================
