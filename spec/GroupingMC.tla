----------------------------- MODULE GroupingMC -----------------------------
(* Every short history of selections and regroupings of a small wrapper.        *)
EXTENDS Grouping, Rep
CONSTANTS NC, MaxPick, MaxOps
VARIABLES w, g0, ops, done
vars == <<w, g0, ops, done>>
Names == <<"x", "y", "z", "u">>
Col(i) == <<"a", "b", "c", "d">>[i]
(* labellings of n columns in which new labels appear in order *)
RECURSIVE Labellings(_)
Labellings(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, Names[k]) : s \in Labellings(n - 1), k \in 1..n}
Proper(s) == \A i \in 1..Len(s) : \E k \in 1..Len(s) : s[i] = Names[k] /\ k <= Len(Distinct(SubSeq(s, 1, i - 1))) + 1
Gs(n) == {<<>>} \cup {s \in Labellings(n) : Proper(s)}
Picks(n) == UNION {[1..k -> 0..(n - 1)] : k \in 1..MaxPick}
Simple(p) == Cardinality(RangeOf(p)) = Len(p)
Base == [rows |-> <<"r0", "r1">>, cols |-> [i \in 1..NC |-> Col(i)], grp |-> <<>>, ndim |-> 2, gnd |-> 0]
Init == g0 \in Gs(NC) /\ w = [Base EXCEPT !.grp = g0] /\ ops = <<>> /\ done = FALSE
Ready == Len(ops) < MaxOps /\ ~done /\ (~Grouped(w) \/ Coherent(w.grp))
Do(op, p, s, v) == w' = v /\ ops' = Append(ops, [op |-> op, p |-> p, scalar |-> s]) /\ UNCHANGED <<g0, done>>
DoCols == \E p \in {q \in Picks(Len(w.cols)) : Simple(q)}, s \in {TRUE, FALSE} : (s => Len(p) = 1) /\ w.ndim = 2 /\ Do("cols", p, s, Cols(w, p, s))
DoGroups == \E p \in {q \in Picks(Len(GroupNames(w))) : Simple(q)}, s \in {TRUE, FALSE} : (s => Len(p) = 1) /\ Grouped(w) /\ GNdim(w) = 2 /\ Do("groups", p, s, Groups(w, p, s))
DoRows == \E p \in {<<1, 0>>, <<0, 1>>} : Do("rows", p, FALSE, Rows(w, p))
(* a lone group that counts as two-dimensional may or may not stay so *)
Lone == Grouped(w) /\ GNdim(w) = 2 /\ Len(Distinct(w.grp)) = 1
DoRegroup == \E g \in Gs(Len(w.cols)) : w.ndim = 2 /\ ~(Lone /\ Len(Distinct(g)) = 1) /\ Do("regroup", g, FALSE, Regroup(w, g))
Finish == ~done /\ (Len(ops) = MaxOps \/ (Grouped(w) /\ ~Coherent(w.grp))) /\ done' = TRUE /\ UNCHANGED <<w, g0, ops>> /\ Emit([g0 |-> g0, ops |-> ops, view |-> View(w)])
Next == (Ready /\ (DoCols \/ DoGroups \/ DoRows \/ DoRegroup)) \/ Finish
Spec == Init /\ [][Next]_vars
(* each column belongs to exactly one group; the stretches of the groups cover the columns *)
Partition == Grouped(w) => LET d == Distinct(w.grp) IN
    /\ \A i \in 1..Len(w.cols) : Cardinality({k \in 1..Len(d) : i - 1 \in RangeOf(Members(w.grp, d[k]))}) = 1
    /\ (Coherent(w.grp) => \A k \in 1..Len(d) : Members(w.grp, d[k]) = [j \in 1..Lens(w.grp)[k] |-> Starts(w.grp)[k] + j - 1])
Aligned == Len(w.grp) \in {0, Len(w.cols)}
(* selecting groups is selecting the columns of these groups *)
GroupsAreCols == Grouped(w) /\ Coherent(w.grp) => \A p \in {q \in Picks(Len(Distinct(w.grp))) : Simple(q)} :
    LET a == Groups(w, p, FALSE) b == Cols(w, GroupCols(w, p), FALSE) IN a.cols = b.cols /\ a.grp = b.grp /\ Distinct(a.grp) = PickSeq(Distinct(w.grp), p)
=============================================================================
