----------------------------- MODULE EpisodesMC -----------------------------
(* Every short series, grown a bar at a time.                                   *)
EXTENDS Episodes, Rep
CONSTANTS N, Values
VARIABLES x, r, d
vars == <<x, r, d>>
Init == x = <<>> /\ r = RInit /\ d = DInit
Row == [x |-> x', ranges |-> RangesOf(r'), draws |-> DrawdownsOf(d'), rsum |-> RangeSum(RangesOf(r'), Len(x'), 1),
        dcov |-> RangeSum(DrawdownsOf(d'), Len(x'), 1), dsum |-> DrawSum(DrawdownsOf(d')), depths |-> Depths(x')]
Next == Len(x) < N /\ \E v \in Values : x' = Append(x, v) /\ r' = TLCEval(RStep(r, NIsNaN(v))) /\ d' = TLCEval(DStep(d, v)) /\ Emit(TLCEval(Row))
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Bars == 0..(Len(x) - 1)
V(i) == x[i + 1]
Has(i) == i \in Bars /\ ~NIsNaN(V(i))
(* the ranges are the maximal runs of values *)
Runs == {<<i, j>> \in Bars \X Bars : i <= j /\ (\A k \in i..j : Has(k)) /\ ~Has(i - 1) /\ ~Has(j + 1)}
RangesExact == LET R == RangesOf(r) IN
    /\ {<<R[k].start, IF R[k].open THEN R[k].end ELSE R[k].end - 1>> : k \in 1..Len(R)} = Runs
    /\ \A k \in 1..Len(R) : (R[k].open <=> Has(Len(x) - 1) /\ k = Len(R)) /\ (k > 1 => R[k - 1].end < R[k].start)
(* the drawdowns are the maximal episodes below a running maximum *)
Peak(i) == Has(i) /\ \A j \in 0..(i - 1) : Has(j) => NLe(V(j), V(i))
Below(i) == Has(i) /\ ~Peak(i)
After(i) == {j \in Bars : j > i /\ Has(j)}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
Final(S) == CHOOSE i \in S : \A j \in S : i >= j
Ups == {i \in Bars : Peak(i) /\ After(i) # {} /\ Below(First(After(i)))}
Episode(p) == LET back == {j \in After(p) : Peak(j)} e == IF back = {} THEN Final(After(p)) ELSE First(back)
                  inside == {j \in After(p) : IF back = {} THEN j <= e ELSE j < e}
                  low == {j \in inside : \A k \in inside : NLe(V(j), V(k))}
              IN  [peak |-> p, start |-> p + 1, valley |-> First(low), end |-> e, pv |-> V(p), vv |-> V(First(low)), ev |-> V(e), open |-> back = {}]
DrawdownsExact == LET D == DrawdownsOf(d) IN {D[k] : k \in 1..Len(D)} = {Episode(p) : p \in Ups} /\ \A k \in 2..Len(D) : D[k - 1].end <= D[k].peak
(* every bar below the maximum belongs to one drawdown; the deepest one is the lowest point of the series against its maximum *)
Accounted == \A i \in Bars : Below(i) => Cardinality({k \in 1..Len(DrawdownsOf(d)) : Covers(DrawdownsOf(d)[k], i)}) = 1
Deepest == DrawdownsOf(d) # <<>> /\ (\A i \in Bars : Has(i) => NGt(V(i), "0")) => NEq(DrawSum(DrawdownsOf(d)).red[2], Min(Depths(x)))
(* the step operators and the recursion used on recorded series agree *)
Stepwise == r = RRun([k \in 1..Len(x) |-> NIsNaN(x[k])], Len(x)) /\ d = DRun(x, Len(x))
=============================================================================
