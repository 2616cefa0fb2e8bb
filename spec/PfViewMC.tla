------------------------------ MODULE PfViewMC ------------------------------
(* Every short history of selections and regroupings of a small portfolio: a   *)
(* column buys as many shares as its number (from 1) at its number as price,    *)
(* and has that many hundreds of cash; a group sharing cash has its own.        *)
EXTENDS PfView, Rep
CONSTANTS NC, MaxPick, MaxOps
VARIABLES b, w, ops, oks, done
vars == <<b, w, ops, oks, done>>
Names == <<"x", "y", "z", "u">>
RECURSIVE Blocks(_)
(* coherent labellings of n columns *)
Blocks(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, Names[k]) : s \in Blocks(n - 1), k \in 1..n}
Gs(n) == {s \in Blocks(n) : \A i \in 1..n : s[i] = Names[Len(G!Distinct(SubSeq(s, 1, i)))]}
Pow == <<"1", "4", "9", "16">>
Hundreds == <<"100", "200", "300", "400">>
Base(g, sharing) ==
    [n |-> NC, t |-> 2, sharing |-> sharing, auto |-> FALSE, align |-> FALSE, fillna |-> FALSE, tol |-> "0", small |-> "0",
     grp |-> g, ndim |-> 2, gnd |-> 0, seq |-> <<>>,
     init |-> IF sharing THEN [u \in 1..Len(G!Distinct(g)) |-> NMul("10", Hundreds[u])] ELSE [x \in 1..NC |-> Hundreds[x]],
     close |-> [i \in 1..2 |-> [x \in 1..NC |-> NNum(x)]],
     ord |-> [x \in 1..NC |-> <<[i |-> 1, side |-> "Buy", size |-> NNum(x), price |-> NNum(x), fees |-> "0"]>>]]
Init == /\ \E g \in Gs(NC) \cup {<<>>}, s \in BOOLEAN : (s => g # <<>>) /\ b = TLCEval(Base(g, s))
        /\ w = Start0(b) /\ ops = <<>> /\ oks = <<>> /\ done = FALSE
Picks(n) == {p \in UNION {[1..k -> 0..(n - 1)] : k \in 1..MaxPick} : Cardinality(G!RangeOf(p)) = Len(p)}
(* a lone group that counts as two-dimensional may or may not stay so *)
Lone == G!Grouped(w) /\ G!GNdim(w) = 2 /\ Len(G!Distinct(w.grp)) = 1
Op(op, p, s, g) == [op |-> op, p |-> p, scalar |-> s, g |-> g]
Do(o) == LET ok == May(w, o, b.sharing) IN
    /\ w' = TLCEval(IF ok THEN After(w, o) ELSE w) /\ ops' = Append(ops, o) /\ oks' = Append(oks, ok) /\ UNCHANGED <<b, done>>
Rising(p) == \A i \in 1..(Len(p) - 1) : p[i] < p[i + 1]
DoCols == (~b.sharing \/ ~G!Grouped(w)) /\ \E p \in Picks(Len(w.cols)), s \in BOOLEAN : (s => Len(p) = 1) /\ (G!Grouped(w) => Rising(p)) /\ Do(Op("cols", p, s, <<>>))
DoGroups == G!Grouped(w) /\ \E p \in Picks(Len(G!Distinct(w.grp))), s \in BOOLEAN : (s => Len(p) = 1) /\ Do(Op("groups", p, s, <<>>))
DoRegroup == w.ndim = 2 /\ ~Lone /\ \E g \in Gs(Len(w.cols)) \cup {<<>>} : Do(Op("regroup", <<>>, FALSE, g))
DoAsk == w.ndim = 2 /\ \E g \in Gs(Len(w.cols)) \cup {<<>>} : Do(Op("ask", <<>>, FALSE, g))
Pf == Portfolio(b, w)
(* totals of the units of the portfolio: initial cash and money spent *)
Units == TLCEval(UnitsOf(w, "own", <<>>))
Totals ==
    LET pf == TLCEval(Pf) v == Units
        spent == [x \in 1..pf.n |-> Bar(Acc0, pf.ord[x], 1).cash]
    IN [u \in 1..Len(v.from) |-> <<UnitCash(pf, v.from[u], v.to[u]), Sum(spent, v.from[u], v.to[u])>>]
Finish == ~done /\ Len(ops) = MaxOps /\ done' = TRUE /\ UNCHANGED <<b, w, ops, oks>>
          /\ Emit([g0 |-> b.grp, sharing |-> b.sharing, ops |-> ops, oks |-> oks, cols |-> w.cols, grp |-> w.grp, dims |-> <<w.ndim, G!GNdim(w)>>, totals |-> Totals])
Next == (Len(ops) < MaxOps /\ (DoCols \/ DoGroups \/ DoRegroup \/ DoAsk)) \/ Finish
Spec == Init /\ [][Next]_vars
(* every column is in one unit; regrouping moves no money *)
Partition == LET v == Units IN \A x \in 1..Len(w.cols) : Cardinality({u \in 1..Len(v.from) : v.from[u] <= x /\ x <= v.to[u]}) = 1
RECURSIVE Add2(_, _)
Add2(s, k) == IF s = <<>> THEN "0" ELSE NAdd(Head(s)[k], Add2(Tail(s), k))
RECURSIVE AddAll(_, _)
AddAll(f, s) == IF s = <<>> THEN "0" ELSE NAdd(f[Head(s) + 1], AddAll(f, Tail(s)))
Conserved == LET t == TLCEval(Totals) IN
    /\ NEq(Add2(t, 2), NNeg(AddAll(Pow, w.cols)))
    /\ (~b.sharing => NEq(Add2(t, 1), AddAll(Hundreds, w.cols)))
(* columns that share cash are never separated nor joined with others *)
Together == b.sharing => LET v == Units IN \A u \in 1..Len(v.from) :
    LET k == BaseGroup(b, w.cols[v.from[u]]) IN
    [x \in 1..(v.to[u] - v.from[u] + 1) |-> w.cols[v.from[u] + x - 1]] = G!Members(b.grp, G!Distinct(b.grp)[k])
=============================================================================
