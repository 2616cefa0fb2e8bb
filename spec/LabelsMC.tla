------------------------------- MODULE LabelsMC -----------------------------
(* Every short price series, grown at its front, under every label.             *)
EXTENDS Labels, Rep
CONSTANTS N, Values
VARIABLES x, out
vars == <<x, out>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Seq1(n, F(_)) == [i \in 1..n |-> F(i)]
B(i) == i = 2
Fs == <<"mean", "var", "min", "max">>
Windows == Flat(Flat(Flat(Seq1(2, LAMBDA wait : Seq1(3, LAMBDA w : Seq1(2, LAMBDA e : Flat(Seq1(IF e = 2 THEN 2 ELSE 4, LAMBDA f :
       <<[op |-> "future", wait |-> wait - 1, w |-> w, ewm |-> B(e), adjust |-> B(wait), f |-> Fs[f], ddof |-> 0]>> \o
       IF f = 1 THEN <<[op |-> "meanlb", wait |-> wait - 1, w |-> w, ewm |-> B(e), adjust |-> B(wait), f |-> "mean", ddof |-> 0]>> ELSE <<>>))))))))
     \o Seq1(3, LAMBDA n : [op |-> "fixed", n |-> n - 1])
     \o Flat(Flat(Seq1(2, LAMBDA w : Seq1(3, LAMBDA wait : Seq1(3, LAMBDA t : [op |-> "breakout", w |-> w, wait |-> wait - 1, pos |-> IF t = 1 THEN "0" ELSE "1/4", neg |-> IF t = 2 THEN "0" ELSE "1/4"])))))
Modes == <<"binary", "cont", "sat", "pct", "norm">>
Waves == Flat(Seq1(3, LAMBDA t : LET p == IF t = 1 THEN "1/4" ELSE "1/2" q == IF t = 2 THEN "1/2" ELSE "1/5" IN
       <<[op |-> "extrema", pos |-> p, neg |-> q]>> \o Seq1(5, LAMBDA m : [op |-> "trend", mode |-> Modes[m], pos |-> p, neg |-> q])))
Ops == TLCEval(Windows \o Waves)
Th(o, f, s) == [i \in 1..Len(s) |-> IF f \in DOMAIN o THEN o[f] ELSE "0"]
All(s) == [k \in 1..Len(Ops) |-> Label(Ops[k], s, Th(Ops[k], "pos", s), Th(Ops[k], "neg", s))]
Init == x = <<>> /\ out = [k \in 1..Len(Ops) |-> <<>>] /\ Emit([ops |-> Ops])
Next == Len(x) < N /\ \E v \in Values : x' = <<v>> \o x /\ out' = TLCEval(All(x')) /\ Emit([x |-> x', out |-> out'])
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* what was before a bar does not matter to its label *)
OnlyAhead == [][\A k \in 1..Len(Windows) : SubSeq(out'[k], 2, Len(x')) = out[k]]_vars
I == 1..Len(x)
Ext == {k \in 1..Len(Ops) : Ops[k].op = "extrema"}
Spots(k) == {i \in I : out[k][i] # "0"}
Pairs(k) == {p \in Spots(k) \X Spots(k) : p[1] < p[2] /\ \A q \in (p[1] + 1)..(p[2] - 1) : q \notin Spots(k)}
Alternate == \A k \in Ext : \A p \in Pairs(k) : NEq(out[k][p[1]], NNeg(out[k][p[2]]))
Apart == \A k \in Ext : \A p \in Pairs(k) :
    IF out[k][p[1]] = "-1" THEN NGe(x[p[2]], NMul(x[p[1]], NAdd("1", Ops[k].pos))) ELSE NLe(x[p[2]], NMul(x[p[1]], NSub("1", Ops[k].neg)))
(* an extremum is one of the stretches on both sides; the first is where the search began *)
Extreme == \A k \in Ext : \A p \in Pairs(k) : (\E q \in Spots(k) : q < p[1]) => \A i \in p[1]..p[2] : LET lo == IF out[k][p[1]] = "-1" THEN p[1] ELSE p[2] hi == IF lo = p[1] THEN p[2] ELSE p[1] IN
    NLe(x[lo], x[i]) /\ NLe(x[i], x[hi])
NeverOne == \A k \in Ext : Cardinality(Spots(k)) # 1
(* all trend labels cover the bars from the first extremum to before the last *)
Covered == \A k \in Ext : \A m \in 1..5 : \A i \in I :
    (~NIsNaN(out[k + m][i])) = (Spots(k) # {} /\ (\E j \in Spots(k) : j <= i) /\ \E j \in Spots(k) : j > i)
Agree == \A k \in Ext : \A i \in I : ~NIsNaN(out[k + 1][i]) => /\ (out[k + 1][i] = "1") => NGe(out[k + 4][i], "0")
                                                               /\ (out[k + 1][i] = "0") => NLe(out[k + 4][i], "0")
                                                               /\ \A m \in {2, 3} : NLe("0", out[k + m][i]) /\ NLe(out[k + m][i], "1")
=============================================================================
