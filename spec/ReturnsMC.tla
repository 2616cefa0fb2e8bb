----------------------------- MODULE ReturnsMC ------------------------------
(* Every short series of returns, with some benchmarks.                         *)
EXTENDS Returns, Rep
CONSTANTS N, Values, Win2, Minp2
VARIABLES x, b
vars == <<x, b>>
Marks == {<<"1/4", "-1/2", "1/8", "0", "1/4">>, <<"nan", "1/2", "1/4", "-1/4", "0">>, <<"-1/4", "-1/4", "-1/4", "-1/4", "-1/4">>}
K == [ann |-> "4", rf |-> "1/8", rr |-> "1/16", ddof |-> 1, levy |-> "2", cutoff |-> "1/4"]
Bench == SubSeq(b, 1, Len(x))
Init == x = <<>> /\ b \in Marks
Next == Len(x) < N /\ \E v \in Values : x' = Append(x, v) /\ b' = b
        /\ LET q == SubSeq(b, 1, Len(x')) IN
           Emit([x |-> x', b |-> q, k |-> K, win |-> Win2, minp |-> Minp2, m |-> [j \in 1..Len(AllMetrics) |-> Metric(AllMetrics[j], x', q, K)],
                 r |-> [j \in 1..Len(AllMetrics) |-> RollMetric(AllMetrics[j], x', q, K, Win2, Minp2)], cum |-> Cum(x', "0"), dd |-> Drawdown(x')])
Spec == Init /\ [][Next]_vars
Near(p, q) == p = "any" \/ q = "any" \/ NSame(p, q, "1/1000000000", "1/1000000000")
n == Len(x)
Restores == n > 0 => LET v == TLCEval(Cum(x, "1")) r == OfValue(v, "1") IN \A i \in 1..n : ~NIsNaN(x[i]) /\ ~NEq(IF i = 1 THEN "1" ELSE v[i - 1], "0") => NEq(r[i], x[i])
Whole == n > 0 => NEq(Total(x), Cum(x, "0")[n]) /\ \A i \in 1..n : Near(NMul(Final1(SubSeq(x, 1, i)), Final1(SubSeq(x, i + 1, n))), Final1(x))
Depth == n > 0 => LET d == TLCEval(Drawdown(x)) c == TLCEval(Cum(x, "1")) IN \A i \in 1..n : NIsNaN(d[i]) \/ (NLe(d[i], "0") /\ NGe(d[i], "-1") /\ (NEq(d[i], "0") <=> \A j \in 1..i : NLe(c[j], c[i])))
Itself == n > 1 => LET be == Beta(x, x) IN /\ (NIsNaN(be) \/ NEq(be, "1"))
                                         /\ (NIsNaN(be) \/ Near(Alpha(x, x, K), "0"))
                                         /\ LET q == Capture(x, x, K) IN q \in {"any", "nan", "inf"} \/ NEq(q, "1")
Tails == n > 0 => LET v == Quant(x, K.cutoff) e == CVaR(x, K) s == Known(x) IN s # <<>> => NGe(v, Fold(s, FALSE)) /\ NLe(v, Fold(s, TRUE)) /\ (Len(s) = n => NLe(e, v))
Causal == [][\A j \in 1..Len(AllMetrics) : LET f == AllMetrics[j] IN RollMetric(f, x, Bench, K, Win2, Minp2) = SubSeq(RollMetric(f, x', SubSeq(b, 1, Len(x')), K, Win2, Minp2), 1, n)]_vars
=============================================================================
