------------------------------- MODULE RecsMC -------------------------------
(* All small entry sets and chains of operations on them.                      *)
EXTENDS Recs, Rep
CONSTANTS NC, MaxE, MaxOps, Groupings
VARIABLES s, e0, g0, ops, done
vars == <<s, e0, g0, ops, done>>
Wrap(g) == [rows |-> <<"r0", "r1">>, cols |-> [i \in 1..NC |-> "c" \o ToString(i)], grp |-> g, ndim |-> 2, gnd |-> 0]
Gs == {<<>>} \cup (IF Groupings THEN {g \in [1..NC -> {"g", "h"}] : Coherent(g)} ELSE {})
Vs == {"1", "2", "nan"}
Entry == {[c |-> c, i |-> i, v |-> v, id |-> 0] : c \in 0..(NC - 1), i \in 0..1, v \in Vs}
Sets == UNION {[1..n -> Entry] : n \in 0..MaxE}
(* ids follow the order within a column, or run against it *)
WithIds(e, rev) == [i \in 1..Len(e) |-> [e[i] EXCEPT !.id = IF rev THEN Len(e) - i ELSE i - 1]]
Init == \E e \in Sets, g \in Gs, rev \in {TRUE, FALSE} : e0 = WithIds(e, rev) /\ g0 = g /\ s = [w |-> Wrap(g), e |-> e0] /\ ops = <<>> /\ done = FALSE
Picks(n) == {<<i>> : i \in 0..(n - 1)} \cup {<<n - 1, 0>>}
Op(o) == s' = TLCEval(Do(s, o)) /\ ops' = Append(ops, o) /\ UNCHANGED <<e0, g0, done>>
Step == /\ ~done /\ Len(ops) < MaxOps
        /\ \/ \E p \in Picks(Len(s.w.cols)), b \in {TRUE, FALSE} : (b => Len(p) = 1) /\ s.w.ndim = 2 /\ (Grouped(s.w) => Coherent(PickSeq(s.w.grp, p))) /\ Op([op |-> "cols", p |-> p, scalar |-> b])
           \/ \E p \in Picks(Len(GroupNames(s.w))) : Grouped(s.w) /\ GNdim(s.w) = 2 /\ Op([op |-> "groups", p |-> p, scalar |-> FALSE])
           \/ \E n \in 1..2, t \in {"top", "bottom"} : Op([op |-> t, n |-> n])
           \/ \E b \in {TRUE, FALSE} : Op([op |-> "sort", ids |-> b])
           \/ Op([op |-> "cumsum", by |-> TRUE])
           \/ Len(s.e) > 0 /\ Op([op |-> "mask", m |-> [i \in 1..Len(s.e) |-> i # 1]])
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<s, e0, g0, ops>> /\ Emit([w |-> Wrap(g0), e |-> e0, ops |-> ops, obs |-> Obs(s)])
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* every entry belongs to exactly one column and to exactly one group *)
OneUnit == \A by \in {TRUE, FALSE} : \A i \in 1..Len(s.e) : Cardinality({u \in Units(s, by) : i \in {Unit(s, u, by)[k] : k \in 1..Len(Unit(s, u, by))}}) = 1
Bag(e) == {<<x, Cardinality({i \in 1..Len(e) : e[i] = x})>> : x \in {e[i] : i \in 1..Len(e)}}
SortKeeps == Bag(Sorted(s, TRUE).e) = Bag(s.e) /\ SortedBy(Sorted(s, TRUE), TRUE) /\ SortedBy(Sorted(s, FALSE), FALSE) /\ Sorted(Sorted(s, TRUE), FALSE) = Sorted(s, TRUE)
RankKeeps == \A n \in 1..2, t \in {TRUE, FALSE} : LET m == RankMask(s, n, t) q == Masked(s, m) IN
    /\ \A u \in Units(s, TRUE) : Len(Unit(q, u, TRUE)) = LET l == Len(Unit(s, u, TRUE)) IN IF l < n THEN l ELSE n
    /\ \A i, j \in 1..Len(s.e) : m[i] /\ ~m[j] /\ UnitOf(s, i, TRUE) = UnitOf(s, j, TRUE) => NIsNaN(s.e[j].v) \/ (~NIsNaN(s.e[i].v) /\ (IF t THEN NGe(s.e[i].v, s.e[j].v) ELSE NLe(s.e[i].v, s.e[j].v)))
(* a table read back gives the entries *)
TableExact == Clash(s, FALSE) \/ \A i \in 1..Len(s.e) : Table(s, FALSE)[s.e[i].i * Len(s.w.cols) + s.e[i].c + 1] = s.e[i].v
(* selecting every column is the stable sort by columns *)
SelectAll == LET n == Len(s.w.cols) IN s.w.ndim = 2 => Moved(s.e, [k \in 1..n |-> k - 1]) = Sorted(s, FALSE).e
=============================================================================
