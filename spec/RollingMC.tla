------------------------------ MODULE RollingMC -----------------------------
(* Every short series, grown a bar at a time, under every operation.            *)
EXTENDS Rolling, Rep
CONSTANTS N, Values, MaxW
VARIABLES x, out
vars == <<x, out>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Seq1(n, F(_)) == [i \in 1..n |-> F(i)]
Stats == <<[f |-> "min", ddof |-> 0], [f |-> "max", ddof |-> 0], [f |-> "mean", ddof |-> 0], [f |-> "var", ddof |-> 0], [f |-> "var", ddof |-> 1], [f |-> "range", ddof |-> 0]>>
Rolls == Flat(Flat(Seq1(MaxW, LAMBDA w : Seq1(w, LAMBDA m : Seq1(Len(Stats), LAMBDA s : [op |-> "roll", w |-> w, m |-> m, f |-> Stats[s].f, ddof |-> Stats[s].ddof])))))
Expands == Flat(Seq1(2, LAMBDA m : Seq1(Len(Stats), LAMBDA s : [op |-> "expand", w |-> 0, m |-> m, f |-> Stats[s].f, ddof |-> Stats[s].ddof])))
Ewms == Flat(Seq1(3, LAMBDA sp : Flat(Seq1(2, LAMBDA a : Flat(Seq1(IF sp > 1 THEN 3 ELSE 2, LAMBDA m : <<[op |-> "ewm", span |-> sp, m |-> m - 1, adjust |-> a = 1, f |-> "mean"], [op |-> "ewm", span |-> sp, m |-> m - 1, adjust |-> a = 1, f |-> "var"]>>))))))
Others == Seq1(3, LAMBDA n : [op |-> "fshift", n |-> n - 1, fill |-> "nan"]) \o Seq1(3, LAMBDA n : [op |-> "bshift", n |-> n - 1, fill |-> "7"])
    \o Seq1(2, LAMBDA n : [op |-> "diff", n |-> n]) \o Seq1(2, LAMBDA n : [op |-> "change", n |-> n]) \o Seq1(3, LAMBDA n : [op |-> "above", n |-> n - 1])
    \o Seq1(3, LAMBDA n : [op |-> "below", n |-> n - 1])
    \o <<[op |-> "ffill"], [op |-> "bfill"], [op |-> "cumsum"], [op |-> "cumprod"], [op |-> "rebase", fill |-> "5"], [op |-> "map"], [op |-> "fillna", fill |-> "0"], [op |-> "filter", fill |-> "2"]>>
Ops == TLCEval(Rolls \o Expands \o Ewms \o Others)
Level(s) == [i \in 1..Len(s) |-> "2"]
All(s) == [k \in 1..Len(Ops) |-> Series(Ops[k], s, Level(s))]
Init == x = <<>> /\ out = [k \in 1..Len(Ops) |-> <<>>] /\ Emit([ops |-> Ops])
Next == Len(x) < N /\ \E v \in Values : x' = Append(x, v) /\ out' = TLCEval(All(x')) /\ Emit([x |-> x', out |-> out'])
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* a new bar changes nothing before it, except where looking ahead is documented *)
Causal == [][\A k \in 1..Len(Ops) : Ahead(Ops[k]) \/ SubSeq(out'[k], 1, Len(x)) = out[k]]_vars
Has(p) == {k \in 1..Len(Ops) : \A f \in DOMAIN p : f \in DOMAIN Ops[k] /\ Ops[k][f] = p[f]}
Res(p) == out[CHOOSE k \in Has(p) : TRUE]
Same(a, b) == (NIsNaN(a) /\ NIsNaN(b)) \/ NEq(a, b)
I == 1..Len(x)
(* the mean lies between the extremes, the variance is the mean square less the squared mean *)
Between == \A w \in 1..MaxW : \A i \in I :
    LET lo == Res([op |-> "roll", w |-> w, m |-> 1, f |-> "min"])[i] hi == Res([op |-> "roll", w |-> w, m |-> 1, f |-> "max"])[i] me == Res([op |-> "roll", w |-> w, m |-> 1, f |-> "mean"])[i]
        va == Res([op |-> "roll", w |-> w, m |-> 1, f |-> "var", ddof |-> 0])[i] k == Known(Win(x, i, w))
    IN  NIsNaN(lo) \/ (NLe(lo, me) /\ NLe(me, hi) /\ NEq(va, NSub(Mean([j \in 1..Len(k) |-> Sq(k[j])]), Sq(me))))
(* a window as long as the series is an expanding one *)
Whole == Len(x) <= MaxW /\ x # <<>> => \A f \in {"min", "max", "mean"} : \A i \in I : Same(Res([op |-> "roll", w |-> MaxW, m |-> 1, f |-> f])[i], Res([op |-> "expand", m |-> 1, f |-> f])[i])
(* the recursive average: without missing values each step moves by alpha *)
Smooth == \A sp \in 1..3 : LET e == Res([op |-> "ewm", span |-> sp, m |-> 0, adjust |-> FALSE, f |-> "mean"]) a == NDiv("2", NNum(sp + 1)) IN
    \A i \in 2..Len(x) : (\A j \in 1..i : ~NIsNaN(x[j])) => NEq(e[i], NAdd(NMul(NSub("1", a), e[i - 1]), NMul(a, x[i])))
Inverse == \A i \in I : Same(Res([op |-> "diff", n |-> 1])[i], NSub(x[i], Res([op |-> "fshift", n |-> 1])[i]))
(* between two crossings above there is one bar that is not above; crossings are disjoint from the opposite ones *)
Alternate == LET u == Res([op |-> "above", n |-> 0]) d == Res([op |-> "below", n |-> 0]) IN
    /\ \A i, j \in I : i < j /\ u[i] = "1" /\ u[j] = "1" => \E k \in (i + 1)..(j - 1) : ~NGt(x[k], "2")
    /\ \A i \in I : ~(u[i] = "1" /\ d[i] = "1")
    /\ \A n \in 1..2 : \A i \in I : (Res([op |-> "above", n |-> n])[i] = "1") => i > n /\ u[i - n] = "1"
=============================================================================
