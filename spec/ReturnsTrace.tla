---------------------------- MODULE ReturnsTrace ----------------------------
(* What the accessor of returns reports for a recorded series.                 *)
EXTENDS Returns, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, i
vars == <<c, i>>
Eq(got, want) == want = "any" \/ NSame(got, want, "1/1000000", "1/1000000000")
EqAll(got, want) == Len(got) = Len(want) /\ \A j \in 1..Len(got) : Eq(got[j], want[j])
TraceInit == c \in 1..Len(Cases) /\ i = 0
(* one metric at a time: the plain one, then every window *)
One ==
    /\ i < Len(AllMetrics) /\ i' = i + 1 /\ c' = c
    /\ LET s == Cases[c] f == AllMetrics[i + 1] m == TLCEval(Metric(f, s.x, s.b, s.k)) IN
       /\ Ok(c, "a metric is its definition on the whole series", Eq(s.plain[i + 1], m), [metric |-> f, got |-> s.plain[i + 1], want |-> m])
       /\ LET r == TLCEval(RollMetric(f, s.x, s.b, s.k, s.win, s.minp)) IN
          Ok(c, "a rolling metric is the metric of the window that ends at the bar", EqAll(s.roll[i + 1], r), [metric |-> f, got |-> s.roll[i + 1], want |-> r])
Series2 ==
    /\ i = Len(AllMetrics) /\ i' = i + 1 /\ c' = c
    /\ LET s == Cases[c] cum == TLCEval(Cum(s.x, s.start)) dd == TLCEval(Drawdown(s.x)) IN
       /\ Ok(c, "cumulative returns multiply up, skipping missing ones", EqAll(s.cum, cum), [got |-> s.cum, want |-> cum])
       /\ Ok(c, "the drawdown is the distance from the highest cumulative return so far", EqAll(s.dd, dd), [got |-> s.dd, want |-> dd])
       /\ Ok(c, "the drawdown records agree with the drawdown", IF NIsNaN(s.worst) THEN NEq(MaxDD(s.x), "0") \/ NIsNaN(MaxDD(s.x)) ELSE NIsNaN(MaxDD(s.x)) \/ Eq(s.worst, MaxDD(s.x)), [got |-> s.worst, want |-> dd])
       /\ Ok(c, "returns of a value are its relative changes", EqAll(s.rets, OfValue(s.value, s.first)), [value |-> s.value, got |-> s.rets, want |-> OfValue(s.value, s.first)])
       /\ Ok(c, "accumulating the returns of a value restores it", EqAll(s.back, s.goods), [value |-> s.goods, got |-> s.back])
       /\ Ok(c, "returns over longer periods accumulate those of their bars",
             /\ Len(s.parts) = Len(s.sampled)
             /\ \A p \in 1..Len(s.parts) : Eq(s.sampled[p], IF s.parts[p] = <<>> THEN "nan" ELSE Total([j \in 1..Len(s.parts[p]) |-> s.x[s.parts[p][j]]])), [parts |-> s.parts, got |-> s.sampled])
       /\ \A q \in 1..Len(s.stats) :
             Ok(c, "statistics report the metrics under their settings", Eq(s.stats[q][2], LET m == Metric(s.stats[q][1], s.x, s.b, s.k2) IN IF m = "any" THEN m ELSE NMul(m, s.stats[q][3])), [stat |-> s.stats[q]])
Done == i = Len(AllMetrics) + 1 /\ Emit(c) /\ i' = i + 1 /\ c' = c
TraceNext == One \/ Series2 \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
