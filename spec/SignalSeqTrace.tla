---------------------------- MODULE SignalSeqTrace --------------------------
(* Recorded calls on longer arrays, and on groups of columns.                   *)
EXTENDS SignalSeq, Num, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
vars == <<c, k>>
TraceInit == c \in 1..Len(Cases) /\ k = 0
Frac(p, q) == NDiv(ToString(p), ToString(q))
SumOver(s, f(_)) == Sum([i \in 1..Len(s) |-> f(s[i])])
AnyOf(as) == [i \in 1..Len(as[1]) |-> \E j \in 1..Len(as) : as[j][i]]
Same(x, y) == NSame(x, y, "1/1000000000000", "1/1000000000000")
Event == /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
         /\ LET o == Cases[c].ops[k'] a == o.a IN
            CASE o.op = "clean" -> Ok(c, "cleaning", [en |-> o.en, ex |-> o.ex] = Clean(a, o.b, o.first), o)
              [] o.op = "rank" -> Ok(c, "ranks", o.out = Rank(a, IF o.reset THEN o.b ELSE NoReset(a), o.mode, o.after), o)
              [] o.op = "select" -> Ok(c, "signals by rank", o.out = LET q == Rank(a, IF o.reset THEN o.b ELSE NoReset(a), o.mode, o.after)
                                            IN [i \in 1..Len(a) |-> q[i] # -1 /\ (IF o.from THEN q[i] >= o.n ELSE q[i] = o.n)], o)
              [] o.op = "ranges" -> Ok(c, "ranges", o.out = CASE o.kind = "between" -> Between(a) [] o.kind = "two" -> BetweenTwo(a, o.b, FALSE) [] o.kind = "other" -> BetweenTwo(a, o.b, TRUE)
                                                                 [] o.kind = "parts" -> Partitions(a) [] o.kind = "gaps" -> BetweenPartitions(a), o)
              [] o.op = "index" -> Ok(c, "positions", o.nth = NthIndex(AnyOf(o.as), o.n) /\ o.where = Where(a), o)
              [] o.op = "stats" ->
                    LET total == SumOver(o.as, LAMBDA x : Len(Where(x)))
                        parts == SumOver(o.as, LAMBDA x : Len(Partitions(x)))
                        cells == Len(o.as) * Len(a)
                        num == SumOver(o.as, LAMBDA x : NormAvg(x)[1])
                    IN /\ Ok(c, "totals", o.total = total /\ o.parts = parts, o)
                       /\ Ok(c, "rates", Same(o.rate, Frac(total, cells)) /\ (total > 0 => Same(o.prate, Frac(parts, total))), o)
                       /\ Ok(c, "mean position", IF Len(a) <= 1 THEN o.avg \in {"nan", "0"} ELSE IF total = 0 THEN o.avg = "nan" ELSE Same(o.avg, Frac(num, total * (Len(a) - 1))), [o |-> o, want |-> IF total = 0 THEN "nan" ELSE Frac(num, total * (Len(a) - 1))])
                       /\ Ok(c, "durations", o.dur = [i \in 1..Len(Between(a)) |-> Between(a)[i][2] - Between(a)[i][1]], o)
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ Emit(c) /\ UNCHANGED c
TraceNext == Event \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
