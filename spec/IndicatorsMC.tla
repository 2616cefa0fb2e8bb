---------------------------- MODULE IndicatorsMC ----------------------------
(* Every short price series, grown a bar at a time, under every indicator.      *)
EXTENDS Indicators, Rep
CONSTANTS N, Values, MaxW
VARIABLES x, out
vars == <<x, out>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Seq1(n, F(_)) == [i \in 1..n |-> F(i)]
B(i) == i = 2
Ops == TLCEval(Flat(Flat(Flat(Seq1(2, LAMBDA e : Seq1(IF e = 2 THEN 2 ELSE 1, LAMBDA a : Seq1(MaxW, LAMBDA w :
       <<[op |-> "ma", w |-> w, ewm |-> B(e), adjust |-> B(a)], [op |-> "mstd", w |-> w, ewm |-> B(e), adjust |-> B(a), ddof |-> 0],
         [op |-> "mstd", w |-> w, ewm |-> B(e), adjust |-> B(a), ddof |-> 1],
         [op |-> "bands", w |-> w, ewm |-> B(e), adjust |-> B(a), ddof |-> 0, alpha |-> "3/2"], [op |-> "rsi", w |-> w, ewm |-> B(e), adjust |-> B(a)],
         [op |-> "stoch", k |-> 2, w |-> w, ewm |-> B(e), adjust |-> B(a)], [op |-> "stoch", k |-> w, w |-> 1, ewm |-> B(e), adjust |-> B(a)],
         [op |-> "macd", w |-> w, slow |-> MaxW, sig |-> 2, ewm |-> B(e), sewm |-> B(3 - e), adjust |-> B(a)], [op |-> "atr", w |-> w, ewm |-> B(e), adjust |-> B(a)]>>)))))) \o <<[op |-> "obv"]>>)
(* highs and lows a fixed way off the close, a volume growing with the bars *)
Bars(s) == [close |-> s, high |-> [i \in 1..Len(s) |-> NAdd(s[i], "1")], low |-> [i \in 1..Len(s) |-> NSub(s[i], "1/2")], vol |-> [i \in 1..Len(s) |-> NNum(i * i)]]
All(s) == [k \in 1..Len(Ops) |-> Ind(Ops[k], Bars(s))]
Init == x = <<>> /\ out = [k \in 1..Len(Ops) |-> <<>>] /\ Emit([ops |-> Ops])
Next == Len(x) < N /\ \E v \in Values : x' = Append(x, v) /\ out' = TLCEval(All(x')) /\ Emit([x |-> x', out |-> out'])
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Causal == [][\A k \in 1..Len(Ops) : \A q \in 1..Len(out[k]) : SubSeq(out'[k][q], 1, Len(x)) = out[k][q]]_vars
I == 1..Len(x)
In(v, lo, hi) == NIsNaN(v) \/ (NLe(lo, v) /\ NLe(v, hi))
(* nothing before the window is full, something from then on *)
Warm == \A k \in 1..Len(Ops) : Ops[k].op \in {"ma", "atr"} => \A i \in I : NIsNaN(out[k][IF Ops[k].op = "ma" THEN 1 ELSE 2][i]) = (i < Ops[k].w)
Bounded == \A k \in 1..Len(Ops) : Ops[k].op \in {"rsi", "stoch"} => \A i \in I : In(out[k][1][i], "0", "100")
(* an average lies between the extremes of what it averages *)
Inside == \A k \in 1..Len(Ops) : Ops[k].op = "ma" => \A i \in I : In(out[k][1][i], Fold(SubSeq(x, 1, i), FALSE), Fold(SubSeq(x, 1, i), TRUE))
Steps == LET o == out[Len(Ops)][1] IN \A i \in 2..Len(x) : NEq(NAbs(NSub(o[i], o[i - 1])), NNum(i * i))
NoGap == \A k \in 1..Len(Ops) : Ops[k].op = "macd" /\ Ops[k].w = Ops[k].slow => \A i \in I : In(out[k][1][i], "0", "0")
Covers == \A k \in 1..Len(Ops) : Ops[k].op = "atr" => \A i \in I : NGe(out[k][1][i], "3/2")
=============================================================================
