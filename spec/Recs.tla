-------------------------------- MODULE Recs --------------------------------
(* Mapped arrays and records: a wrapper and a sequence of entries, each with    *)
(* its column (0-based), row, value and id; selections, filters, sorting,       *)
(* reductions and tables are defined on that sequence alone.                    *)
EXTENDS Grouping, Num, TLC
Pos(s) == [i \in 1..Len(s) |-> i]
At(s, p) == [i \in 1..Len(p) |-> s[p[i]]]
Filter(s, P(_)) == LET p == SelectSeq(Pos(s), P) IN At(s, p)
(* ------------------------------------------------------------ operations *)
Moved(e, q) == Joined([k \in 1..Len(q) |-> LET own == Filter(e, LAMBDA i : e[i].c = q[k]) IN [j \in 1..Len(own) |-> [own[j] EXCEPT !.c = k - 1]]])
SelCols(s, p, scalar) == [w |-> Cols(s.w, p, scalar), e |-> Moved(s.e, p)]
SelGroups(s, p, scalar) == [w |-> Groups(s.w, p, scalar), e |-> Moved(s.e, GroupCols(s.w, p))]
Masked(s, m) == [s EXCEPT !.e = Filter(s.e, LAMBDA i : m[i])]
(* the unit an entry belongs to: its group, or its column *)
UnitOf(s, i, by) == IF by /\ Grouped(s.w) THEN Codes(s.w.grp)[s.e[i].c + 1] ELSE s.e[i].c
NUnits(s, by) == IF by /\ Grouped(s.w) THEN Len(Distinct(s.w.grp)) ELSE Len(s.w.cols)
Unit(s, u, by) == SelectSeq(Pos(s.e), LAMBDA i : UnitOf(s, i, by) = u - 1)
(* j ranks before i among the n largest (smallest): missing values last, ties to the later (earlier) *)
Before(s, j, i, top) ==
    LET a == s.e[j].v b == s.e[i].v IN
    IF NIsNaN(a) THEN NIsNaN(b) /\ (IF top THEN j > i ELSE j < i)
    ELSE IF NIsNaN(b) THEN TRUE
    ELSE IF NEq(a, b) THEN (IF top THEN j > i ELSE j < i)
    ELSE IF top THEN NGt(a, b) ELSE NLt(a, b)
RankMask(s, n, top) == [i \in 1..Len(s.e) |-> Cardinality({j \in 1..Len(s.e) : j # i /\ UnitOf(s, j, TRUE) = UnitOf(s, i, TRUE) /\ Before(s, j, i, top)}) < n]
Key(x, ids) == IF ids THEN x.c * 100000 + x.id ELSE x.c
Sorted(s, ids) == [s EXCEPT !.e = LET P(i) == Cardinality({j \in 1..Len(s.e) : Key(s.e[j], ids) < Key(s.e[i], ids) \/ (Key(s.e[j], ids) = Key(s.e[i], ids) /\ j < i)}) + 1
                                  IN  [k \in 1..Len(s.e) |-> s.e[CHOOSE i \in 1..Len(s.e) : P(i) = k]]]
Regrouped(s, g) == [s EXCEPT !.w = Regroup(s.w, g)]
RECURSIVE CumAt(_, _, _)
CumAt(s, us, k) == IF k = 0 THEN "0" ELSE NAdd(CumAt(s, us, k - 1), s.e[us[k]].v)
Cumulated(s, by) == [s EXCEPT !.e = [i \in 1..Len(s.e) |-> LET us == Unit(s, UnitOf(s, i, by) + 1, by) IN
                                       [s.e[i] EXCEPT !.v = CumAt(s, us, CHOOSE k \in 1..Len(us) : us[k] = i)]]]
Added(s, x) == [s EXCEPT !.e = [i \in 1..Len(s.e) |-> [s.e[i] EXCEPT !.v = NAdd(s.e[i].v, x)]]]
Doubled(s) == [s EXCEPT !.e = [i \in 1..Len(s.e) |-> [s.e[i] EXCEPT !.v = NAdd(s.e[i].v, s.e[i].v)]]]
Do(s, o) == CASE o.op = "cols" -> SelCols(s, o.p, o.scalar) [] o.op = "groups" -> SelGroups(s, o.p, o.scalar) [] o.op = "mask" -> Masked(s, o.m)
              [] o.op = "top" -> Masked(s, RankMask(s, o.n, TRUE)) [] o.op = "bottom" -> Masked(s, RankMask(s, o.n, FALSE))
              [] o.op = "sort" -> Sorted(s, o.ids) [] o.op = "regroup" -> Regrouped(s, o.p) [] o.op = "cumsum" -> Cumulated(s, o.by)
              [] o.op = "add" -> Added(s, o.x) [] o.op = "double" -> Doubled(s)
(* ----------------------------------------------------------- observations *)
Vals(s, u, by) == LET us == Unit(s, u, by) IN [k \in 1..Len(us) |-> s.e[us[k]].v]
Known(vs) == SelectSeq(vs, LAMBDA x : ~NIsNaN(x))
RECURSIVE Best(_, _)
Best(vs, top) == IF Len(vs) = 1 THEN 1 ELSE LET b == Best(SubSeq(vs, 1, Len(vs) - 1), top) x == vs[Len(vs)] IN
    IF NIsNaN(x) THEN b ELSE IF NIsNaN(vs[b]) \/ (IF top THEN NGt(x, vs[b]) ELSE NLt(x, vs[b])) THEN Len(vs) ELSE b
Red(vs, kind) ==
    LET k == Known(vs) IN
    CASE kind = "sum" -> IF vs = <<>> THEN "0" ELSE NSum(k)
      [] kind \in {"min", "max"} -> IF k = <<>> THEN "nan" ELSE k[Best(k, kind = "max")]
      [] kind = "mean" -> IF k = <<>> THEN "nan" ELSE NDiv(NSum(k), NNum(Len(k)))
RECURSIVE Asc(_)
Asc(vs) == IF vs = <<>> THEN <<>> ELSE LET b == Best(vs, FALSE) IN <<vs[b]>> \o Asc(SubSeq(vs, 1, b - 1) \o SubSeq(vs, b + 1, Len(vs)))
Median(k) == LET a == Asc(k) n == Len(k) IN IF n = 0 THEN "nan" ELSE IF n % 2 = 1 THEN a[(n + 1) \div 2] ELSE NDiv(NAdd(a[n \div 2], a[(n \div 2) + 1]), "2")
(* the square of the standard deviation *)
Var(k, d) == IF Len(k) <= d THEN "nan" ELSE LET m == Red(k, "mean") IN NDiv(NSum([i \in DOMAIN k |-> NMul(NSub(k[i], m), NSub(k[i], m))]), NNum(Len(k) - d))
(* count, mean, variance, minimum, median and maximum of the known values *)
Described(vs, d) == LET k == Known(vs) IN <<NNum(Len(k)), Red(k, "mean"), Var(k, d), Red(k, "min"), Median(k), Red(k, "max")>>
(* an entry's row label for each unit; a unit without entries has none *)
RowAt(s, u, by, k) == s.w.rows[s.e[Unit(s, u, by)[k]].i + 1]
Units(s, by) == 1..NUnits(s, by)
Idx(s, by, top) ==
    IF \E u \in Units(s, by) : Vals(s, u, by) # <<>> /\ Known(Vals(s, u, by)) = <<>> THEN <<"refused">>
    ELSE [u \in Units(s, by) |-> LET v == Vals(s, u, by) IN IF v = <<>> THEN "nan" ELSE RowAt(s, u, by, Best(v, top))]
Nth(s, by, n, lab) ==
    LET K(u) == IF n >= 0 THEN n + 1 ELSE Len(Unit(s, u, by)) + n + 1
        Ok1(u) == Unit(s, u, by) = <<>> \/ (K(u) >= 1 /\ K(u) <= Len(Unit(s, u, by)))
    IN  IF \E u \in Units(s, by) : ~Ok1(u) THEN <<"refused">>
        ELSE [u \in Units(s, by) |-> IF Unit(s, u, by) = <<>> THEN "nan" ELSE IF lab THEN RowAt(s, u, by, K(u)) ELSE Vals(s, u, by)[K(u)]]
Clash(s, by) == \E i, j \in 1..Len(s.e) : i # j /\ UnitOf(s, i, by) = UnitOf(s, j, by) /\ s.e[i].i = s.e[j].i
Table(s, by) ==
    IF Clash(s, by) THEN <<"refused">>
    ELSE [x \in 1..(Len(s.w.rows) * NUnits(s, by)) |->
          LET r == (x - 1) \div NUnits(s, by) u == (x - 1) % NUnits(s, by)
              here == SelectSeq(Pos(s.e), LAMBDA i : s.e[i].i = r /\ UnitOf(s, i, by) = u)
          IN IF here = <<>> THEN "nan" ELSE s.e[here[1]].v]
MaxUnit(s, by) == LET ls == {Len(Unit(s, u, by)) : u \in Units(s, by)} IN IF ls = {} THEN 0 ELSE CHOOSE x \in ls : \A y \in ls : y <= x
Stacked(s, by) == [x \in 1..(MaxUnit(s, by) * NUnits(s, by)) |->
    LET k == ((x - 1) \div NUnits(s, by)) + 1 v == Vals(s, ((x - 1) % NUnits(s, by)) + 1, by) IN IF k <= Len(v) THEN v[k] ELSE "nan"]
(* value counts: the different values in order of appearance, unknown keys of the mapping after them *)
Uniques(s) == LET First(i) == \A j \in 1..(i - 1) : s.e[j].v # s.e[i].v IN [k \in 1..Len(SelectSeq(Pos(s.e), First)) |-> s.e[SelectSeq(Pos(s.e), First)[k]].v]
ByKey(rows, Less(_, _)) == LET P(i) == Cardinality({j \in DOMAIN rows : Less(rows[j], rows[i]) \/ (~Less(rows[i], rows[j]) /\ j < i)}) + 1
                           IN  [k \in DOMAIN rows |-> rows[CHOOSE i \in DOMAIN rows : P(i) = k]]
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE q[1] + Total(SubSeq(q, 2, Len(q)))
Freq(s, by, o) ==
    LET own == Uniques(s)
        keys == [k \in DOMAIN o.map |-> o.map[k][1]]
        vals == own \o (IF o.all THEN SelectSeq(keys, LAMBDA x : x \notin RangeOf(own)) ELSE <<>>)
        left == IF o.dropna THEN SelectSeq(vals, LAMBDA x : ~NIsNaN(x)) ELSE vals
        rows == [i \in DOMAIN left |-> <<left[i], [u \in Units(s, by) |-> Len(SelectSeq(Vals(s, u, by), LAMBDA y : y = left[i]))]>>]
        one == TLCEval(IF o.uniq THEN ByKey(rows, LAMBDA a, b : IF NIsNaN(a[1]) THEN FALSE ELSE NIsNaN(b[1]) \/ NLt(a[1], b[1])) ELSE rows)
        two == TLCEval(IF o.sort THEN ByKey(one, LAMBDA a, b : IF o.asc THEN Total(a[2]) < Total(b[2]) ELSE Total(a[2]) > Total(b[2])) ELSE one)
        all == Total([i \in DOMAIN two |-> Total(two[i][2])])
        Lab(x) == IF o.map = <<>> THEN x ELSE IF x \in RangeOf(keys) THEN o.map[CHOOSE k \in DOMAIN keys : keys[k] = x][2] ELSE "nan"
        Share(n) == IF ~o.norm THEN NNum(n) ELSE IF all = 0 THEN "nan" ELSE NDiv(NNum(n), NNum(all))
    IN  [i \in DOMAIN two |-> <<Lab(two[i][1]), [u \in DOMAIN two[i][2] |-> Share(two[i][2][u])]>>]
Names(s, by) == IF by THEN GroupNames(s.w) ELSE s.w.cols
By(s, by) ==
    [names |-> Names(s, by), count |-> [u \in Units(s, by) |-> Len(Unit(s, u, by))],
     sum |-> [u \in Units(s, by) |-> Red(Vals(s, u, by), "sum")], min |-> [u \in Units(s, by) |-> Red(Vals(s, u, by), "min")],
     max |-> [u \in Units(s, by) |-> Red(Vals(s, u, by), "max")], mean |-> [u \in Units(s, by) |-> Red(Vals(s, u, by), "mean")],
     idxmin |-> Idx(s, by, FALSE), idxmax |-> Idx(s, by, TRUE), first |-> Nth(s, by, 0, FALSE), last |-> Nth(s, by, -1, FALSE), lasti |-> Nth(s, by, -1, TRUE), second |-> Nth(s, by, 1, TRUE),
     desc |-> IF Len(s.e) = 0 THEN <<>> ELSE [u \in Units(s, by) |-> Described(Vals(s, u, by), 1)],
     desc0 |-> IF Len(s.e) = 0 THEN <<>> ELSE [u \in Units(s, by) |-> Described(Vals(s, u, by), 0)],
     std |-> IF Len(s.e) = 0 THEN <<>> ELSE [d \in 1..2 |-> [u \in Units(s, by) |-> Var(Known(Vals(s, u, by)), d - 1)]],
     median |-> IF Len(s.e) = 0 THEN <<>> ELSE [u \in Units(s, by) |-> Median(Known(Vals(s, u, by)))],
     fits |-> ~Clash(s, by), table |-> Table(s, by), stack |-> Stacked(s, by)]
Entries(s) == [i \in 1..Len(s.e) |-> <<s.w.cols[s.e[i].c + 1], s.w.rows[s.e[i].i + 1], s.e[i].v, ToString(s.e[i].id)>>]
SortedBy(s, ids) == \A i \in 1..(Len(s.e) - 1) : Key(s.e[i], ids) <= Key(s.e[i + 1], ids)
Obs(s) == [entries |-> Entries(s), ndim |-> s.w.ndim, own |-> By(s, TRUE), cols |-> By(s, FALSE), sorted |-> SortedBy(s, FALSE), idsorted |-> SortedBy(s, TRUE), agree |-> TRUE]
=============================================================================
