-------------------------------- MODULE Apply --------------------------------
(* Applying functions to arrays, reducing them, combining and stacking them.   *)
(* A table is [ser, ix, cx, m]: a series or a frame, its index and columns     *)
(* (levels as in Bc.tla; a series has its name as the only column) and rows of *)
(* cells.  Functions of the user are free: what a function returns is a text   *)
(* saying which function was handed what, so a result tells every element that *)
(* went into it.  Built-in reductions work on numbers (Num.tla).               *)
EXTENDS Bc, Num
Defaults == [dup |-> TRUE, keep |-> "last", red |-> TRUE]
RECURSIVE Joined(_, _)
Joined(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Joined(Tail(ss), sep)
T(head, xs) == head \o ";7(" \o Joined(xs, " ") \o ")"
Z(i) == ToString(i - 1)
NR(t) == Len(t.m)
NC(t) == ILen(t.cx)
Grid(t, F(_, _)) == [i \in 1..NR(t) |-> [j \in 1..NC(t) |-> F(i, j)]]
ColOf(t, j) == [i \in 1..NR(t) |-> t.m[i][j]]
RowTexts(t, rows, cols) == [r \in DOMAIN rows |-> Joined([c \in DOMAIN cols |-> t.m[rows[r]][cols[c]]], ",")]
All(n) == [i \in 1..n |-> i]
Named(s) == <<[n |-> "", v |-> <<s>>]>>
NoName == Plain(1)
Uniq(s) == LET f == SelectSeq(All(Len(s)), LAMBDA i : \A j \in 1..(i - 1) : s[j] # s[i]) IN [i \in DOMAIN f |-> s[f[i]]]
Where(s, x) == SelectSeq(All(Len(s)), LAMBDA i : s[i] = x)
(* an operation: everything it may be told *)
Op0 == [op |-> "", n |-> 0, axis |-> 0, by |-> <<>>, gn |-> "", order |-> "C", mat |-> FALSE, arr |-> FALSE, idx |-> FALSE, label |-> TRUE, form |-> "np", loop |-> FALSE,
        keys |-> <<>>, others |-> <<>>, flat |-> FALSE, ps |-> <<>>, opts |-> <<>>, top |-> TRUE, keep |-> "last"]
(* column groups: labels, and the columns of each *)
GroupIx(o) == <<[n |-> o.gn, v |-> Uniq(o.by)]>>
GroupCols(o) == LET u == Uniq(o.by) IN [g \in DOMAIN u |-> Where(o.by, u[g])]
(* units of a reduction: columns, or groups of columns *)
Units(t, o) == IF o.by = <<>> THEN [j \in 1..NC(t) |-> <<j>>] ELSE GroupCols(o)
UnitIx(t, o) == IF o.by = <<>> THEN t.cx ELSE GroupIx(o)
Narrow(t, o) == IF o.by = <<>> THEN t.ser ELSE Len(Uniq(o.by)) = 1
Scalar(x) == [ser |-> TRUE, ix |-> NoIx, cx |-> NoName, m |-> <<<<x>>>>]
NameOf(cx) == IF cx[1].v[1] = "0" THEN NoName ELSE Named(cx[1].v[1])
(* one value per unit *)
One(t, o, vals, name) == IF Narrow(t, o) THEN Scalar(vals[1]) ELSE [ser |-> TRUE, ix |-> UnitIx(t, o), cx |-> Named(name), m |-> [u \in DOMAIN vals |-> <<vals[u]>>]]
(* several values per unit, labelled *)
Several(t, o, vals, ix) ==
    LET m == [r \in 1..ILen(ix) |-> [u \in DOMAIN vals |-> vals[u][r]]] IN
    IF Narrow(t, o) THEN [ser |-> TRUE, ix |-> ix, cx |-> NameOf(UnitIx(t, o)), m |-> m] ELSE [ser |-> FALSE, ix |-> ix, cx |-> UnitIx(t, o), m |-> m]
(* the elements of a unit, row by row or column by column *)
FlatC(t, cols) == [k \in 1..(NR(t) * Len(cols)) |-> t.m[((k - 1) \div Len(cols)) + 1][cols[((k - 1) % Len(cols)) + 1]]]
FlatF(t, cols) == [k \in 1..(NR(t) * Len(cols)) |-> t.m[((k - 1) % NR(t)) + 1][cols[((k - 1) \div NR(t)) + 1]]]
Flat(t, cols, order) == IF order = "C" THEN FlatC(t, cols) ELSE FlatF(t, cols)
RowOf(t, cols, order, k) == IF order = "C" THEN k \div Len(cols) ELSE k % NR(t)
Valid(s) == SelectSeq(s, LAMBDA x : x # "nan")
----------------------------------------------------------------------------
(* applying *)
Elem(t, head(_, _)) == [t EXCEPT !.m = Grid(t, LAMBDA i, j : T(head(i, j), <<t.m[i][j]>>))]
Along(t, o) == [t EXCEPT !.m = Grid(t, LAMBDA i, j : IF o.axis = 0 THEN T("c" \o Z(j) \o "." \o Z(i), ColOf(t, j)) ELSE T("r" \o Z(i) \o "." \o Z(j), t.m[i]))]
Map(t) == [t EXCEPT !.m = Grid(t, LAMBDA i, j : IF t.m[i][j] = "nan" THEN "nan" ELSE T("m" \o Z(i) \o "." \o Z(j), <<t.m[i][j]>>))]
Passes(i, j) == (2 * i + j) % 3 # 0
Filter(t) == [t EXCEPT !.m = Grid(t, LAMBDA i, j : IF Passes(i, j) THEN t.m[i][j] ELSE "nan")]
Asked(t) == {T(Z(i) \o "." \o Z(j), <<t.m[i][j]>>) : i \in 1..NR(t), j \in 1..NC(t)} \ {T(Z(i) \o "." \o Z(j), <<"nan">>) : i \in 1..NR(t), j \in 1..NC(t)}
(* stretches of rows: labels in order, the rows of each *)
OverRows(t, o, rows) ==
    LET Which(r) == Joined([k \in DOMAIN r |-> Z(r[k])], " ")
        Cell(r, j) == IF r = <<>> THEN "nan"
                      ELSE IF o.mat THEN T("G[" \o Which(r) \o "]." \o Z(j), RowTexts(t, r, All(NC(t))))
                      ELSE T("g[" \o Which(r) \o "]." \o Z(j), [k \in DOMAIN r |-> t.m[r[k]][j]])
    IN  [g \in DOMAIN rows |-> [j \in 1..NC(t) |-> Cell(rows[g], j)]]
Letters == <<"p", "q", "r">>
GroupBy(t, o) ==
    LET u == SelectSeq(Letters, LAMBDA x : x \in Rng(o.by))
    IN  [t EXCEPT !.ix = <<[n |-> "", v |-> u]>>, !.m = OverRows(t, o, [g \in DOMAIN u |-> Where(o.by, u[g])])]
(* days (numbers as texts in o.ps) in bins of o.n days, from the first *)
Resample(t, o) ==
    LET d == [i \in DOMAIN o.ps |-> NInt(o.ps[i])]
        k == ((d[Len(d)] - d[1]) \div o.n) + 1
    IN  [t EXCEPT !.ix = <<[n |-> "", v |-> [b \in 1..k |-> ToString(d[1] + ((b - 1) * o.n))]]>>,
                  !.m = OverRows(t, o, [b \in 1..k |-> SelectSeq(All(Len(d)), LAMBDA i : (d[i] - d[1]) \div o.n = b - 1)])]
Call(t, form, n) == n \o form \o (IF form \in {"np2", "pd2"} THEN "" ELSE IF t.ser THEN "1" ELSE "2")
Whole(t, o) == Elem(t, LAMBDA i, j : Call(t, o.form, "e"))
----------------------------------------------------------------------------
(* reducing with functions of the user *)
Input(t, o, u) == LET cols == Units(t, o)[u] IN
    IF o.by = <<>> THEN ColOf(t, cols[1]) ELSE IF o.flat THEN Flat(t, cols, o.order) ELSE RowTexts(t, All(NR(t)), cols)
(* a function that returns a position: of a row, or of an element of the flattened group *)
Place(t, o, u, shift) ==
    LET cols == Units(t, o)[u]
        v == Len(Valid(Flat(t, cols, o.order)))
        flat == o.by # <<>> /\ o.flat
        p == (v + u + shift) % (IF flat THEN NR(t) * Len(cols) ELSE NR(t))
        r == IF flat THEN RowOf(t, cols, o.order, p) ELSE p
    IN  IF v = 0 THEN (IF o.label THEN "nan" ELSE "-1") ELSE IF o.label THEN t.ix[1].v[r + 1] ELSE ToString(r)
Reduce(t, o) ==
    LET us == 1..Len(Units(t, o))
        V(u, k) == IF o.idx THEN Place(t, o, u, k) ELSE T("d" \o ToString(k) \o "." \o Z(u), Input(t, o, u))
    IN  IF o.arr THEN Several(t, o, [u \in us |-> <<V(u, 0), V(u, 1)>>], Plain(2)) ELSE One(t, o, [u \in us |-> V(u, 0)], "reduce")
ApplyReduce(t, o) == One(t, o, [u \in 1..NC(t) |-> T("d0." \o Z(u), [i \in 1..NR(t) |-> T("c" \o Z(u) \o "." \o Z(i), ColOf(t, u))])], "apply_and_reduce")
Grouped(t, o, ix, m) == IF Narrow(t, o) THEN [ser |-> TRUE, ix |-> ix, cx |-> NameOf(GroupIx(o)), m |-> m] ELSE [ser |-> FALSE, ix |-> ix, cx |-> GroupIx(o), m |-> m]
Squeeze(t, o) == LET us == Units(t, o) IN
    Grouped(t, o, t.ix, [i \in 1..NR(t) |-> [g \in DOMAIN us |-> T("q" \o Z(i) \o "." \o Z(g), [k \in DOMAIN us[g] |-> t.m[i][us[g][k]]])]])
Flatten(t, o) ==
    LET us == Units(t, o)
        w == MaxOf([g \in DOMAIN us |-> Len(us[g])])
        n == NR(t)
        Cell(i, k, g) == IF k > Len(us[g]) THEN "nan" ELSE t.m[i][us[g][k]]
    IN  Grouped(t, o, IF o.order = "C" THEN RepIx(t.ix, w) ELSE TileIx(t.ix, w),
                [r \in 1..(n * w) |-> [g \in DOMAIN us |-> IF o.order = "C" THEN Cell(((r - 1) \div w) + 1, ((r - 1) % w) + 1, g) ELSE Cell(((r - 1) % n) + 1, ((r - 1) \div n) + 1, g)]])
----------------------------------------------------------------------------
(* stacking and combining *)
Tile(t, o) ==
    LET n == o.n IN
    IF o.axis = 0 THEN [t EXCEPT !.m = TileSeq(t.m, n), !.ix = IF o.keys = <<>> THEN TileIx(@, n) ELSE Combine2(o.keys, @, Defaults)]
    ELSE [t EXCEPT !.ser = FALSE, !.m = [i \in DOMAIN @ |-> TileSeq(@[i], n)], !.cx = IF o.keys = <<>> THEN TileIx(@, n) ELSE Combine2(o.keys, @, Defaults)]
Repeat(t, o) ==
    LET n == o.n IN
    IF o.axis = 0 THEN [t EXCEPT !.m = RepSeq(t.m, n), !.ix = IF o.keys = <<>> THEN RepIx(@, n) ELSE Combine2(@, o.keys, Defaults)]
    ELSE [t EXCEPT !.ser = FALSE, !.m = [i \in DOMAIN @ |-> RepSeq(@[i], n)], !.cx = IF o.keys = <<>> THEN RepIx(@, n) ELSE Combine2(@, o.keys, Defaults)]
(* blocks of columns side by side *)
Beside(t, ms, cx) == [t EXCEPT !.ser = FALSE, !.cx = cx, !.m = [i \in 1..NR(t) |-> FlattenSeq([b \in DOMAIN ms |-> ms[b][i]])]]
Over(keys, n, name) == IF keys # <<>> THEN keys ELSE <<[n |-> name, v |-> [i \in 1..n |-> Z(i)]]>>
Many(t, o) == Beside(t, [b \in 1..o.n |-> Elem(t, LAMBDA i, j : Call(t, o.form, "n" \o Z(b))).m], Combine2(Over(o.keys, o.n, "apply_idx"), t.cx, Defaults))
(* another object: [k: "like" with cells, "num" a single value, m] *)
Cell2(x, i, j) == IF x.k = "num" THEN x.m[1][1] ELSE x.m[i][j]
Pair(t, o, m, x) == [i \in 1..NR(t) |-> [j \in 1..NC(t) |-> T(Call(t, o.form, "k"), <<m[i][j], Cell2(x, i, j)>>)]]
RECURSIVE PairAll(_, _, _, _)
PairAll(t, o, m, xs) == IF xs = <<>> THEN m ELSE PairAll(t, o, TLCEval(Pair(t, o, m, xs[1])), Tail(xs))
Combined(t, o) ==
    IF Len(o.others) > 1 /\ o.flat THEN Beside(t, [b \in DOMAIN o.others |-> Pair(t, o, t.m, o.others[b])], Combine2(Over(o.keys, Len(o.others), "combine_idx"), t.cx, Defaults))
    ELSE [t EXCEPT !.m = PairAll(t, o, t.m, o.others)]
(* plain concatenation: nothing is dropped from the labels *)
Concat(t, o) ==
    LET ms == <<t.m>> \o [b \in DOMAIN o.others |-> [i \in 1..NR(t) |-> [j \in 1..NC(t) |-> Cell2(o.others[b], i, j)]]]
        n == Len(ms)
        cols == [l \in DOMAIN t.cx |-> [n |-> t.cx[l].n, v |-> TileSeq(t.cx[l].v, n)]]
        flat == Len(t.cx) = 1 /\ \A j \in 1..NC(t) : t.cx[1].v[j] = "0"
    IN  Beside(t, ms, IF o.keys # <<>> THEN <<[n |-> o.keys[1].n, v |-> RepSeq(o.keys[1].v, NC(t))]>> \o cols ELSE IF flat THEN Plain(n * NC(t)) ELSE cols)
(* levels of an axis *)
OnAxis(t, o, F(_)) == IF o.axis = 0 THEN [t EXCEPT !.ix = F(@)] ELSE [t EXCEPT !.cx = F(@)]
Stacked(t, o) == OnAxis(t, o, LAMBDA ix : Stack(IF o.top THEN <<o.keys, ix>> ELSE <<ix, o.keys>>, Defaults))
Dropped(t, o) == OnAxis(t, o, LAMBDA ix : IF Len(ix) = 1 THEN ix ELSE SelLevels(ix, SelectSeq(All(Len(ix)), LAMBDA l : l # o.n)))
Selected(t, o) == OnAxis(t, o, LAMBDA ix : SelLevels(ix, IF o.arr THEN [l \in 1..Len(ix) |-> (Len(ix) + 1) - l] ELSE <<o.n>>))
Renamed(t, o) == OnAxis(t, o, LAMBDA ix : [l \in DOMAIN ix |-> IF ix[l].n = o.ps[1] THEN [ix[l] EXCEPT !.n = o.ps[2]] ELSE ix[l]])
Lean(t, o) == OnAxis(t, o, DropRed)
Deduped(t, o) == OnAxis(t, o, LAMBDA ix : DropDup(ix, o.keep))
----------------------------------------------------------------------------
(* numbers *)
Sorted(s) == SortSeq(s, LAMBDA a, b : NLt(a, b))
Mean(s) == IF s = <<>> THEN "nan" ELSE NDiv(NSum(s), NNum(ToString(Len(s))))
Quantile(s, p) ==
    IF s = <<>> THEN "nan"
    ELSE LET q == Sorted(s)
             pos == NMul(p, ToString(Len(q) - 1))
             lo == NInt(NFloor(pos)) + 1
             hi == IF lo = Len(q) THEN lo ELSE lo + 1
         IN  NAdd(q[lo], NMul(NSub(pos, NFloor(pos)), NSub(q[hi], q[lo])))
Var(s, ddof) == IF Len(s) <= ddof THEN "nan" ELSE LET a == Mean(s) IN NDiv(NSum([i \in DOMAIN s |-> NMul(NSub(s[i], a), NSub(s[i], a))]), ToString(Len(s) - ddof))
Lowest(s) == IF s = <<>> THEN "nan" ELSE Sorted(s)[1]
Highest(s) == IF s = <<>> THEN "nan" ELSE Sorted(s)[Len(s)]
Stat(t, o, u) ==
    LET cols == Units(t, o)[u]
        s == Valid(Flat(t, cols, "C"))
        all == Flat(t, cols, o.order)
        First(x) == LET k == CHOOSE k \in DOMAIN all : all[k] = x /\ \A h \in 1..(k - 1) : all[h] # x IN t.ix[1].v[RowOf(t, cols, o.order, k - 1) + 1]
    IN  CASE o.op = "min" -> Lowest(s) [] o.op = "max" -> Highest(s) [] o.op = "mean" -> Mean(s) [] o.op = "median" -> Quantile(s, "1/2")
          [] o.op = "std" -> Var(s, o.n) [] o.op = "sum" -> NSum(s) [] o.op = "count" -> ToString(Len(s))
          [] o.op = "idxmin" -> (IF s = <<>> THEN "nan" ELSE First(Lowest(s))) [] OTHER -> (IF s = <<>> THEN "nan" ELSE First(Highest(s)))
Builtin(t, o) == One(t, o, [u \in DOMAIN Units(t, o) |-> Stat(t, o, u)], o.op)
(* o.ps: percentiles with labels in o.opts, ascending *)
Describe(t, o) ==
    LET D(u) == LET s == Valid(Flat(t, Units(t, o)[u], "C")) IN
                <<ToString(Len(s)), Mean(s), Var(s, o.n), Lowest(s)>> \o [k \in DOMAIN o.ps |-> Quantile(s, o.ps[k])] \o <<Highest(s)>>
    IN  Several(t, o, [u \in DOMAIN Units(t, o) |-> D(u)], <<[n |-> "", v |-> <<"count", "mean", "std", "min">> \o o.opts \o <<"max">>]>>)
(* counts of values; o.opts: options among sort_uniques, sort, ascending, dropna, normalize, incl_all_keys; o.ps: mapped values *)
Counts(t, o) ==
    LET us == Units(t, o)
        On(x) == x \in Rng(o.opts)
        flat == FlatC(t, All(NC(t)))
        u0 == Uniq(flat)
        u1 == IF On("incl_all_keys") /\ o.ps # <<>> THEN u0 \o SelectSeq(o.ps, LAMBDA x : x \notin Rng(u0)) ELSE u0
        u2 == IF On("dropna") THEN Valid(u1) ELSE u1
        u3 == IF On("sort_uniques") THEN Sorted(Valid(u2)) \o SelectSeq(u2, LAMBDA x : x = "nan") ELSE u2
        N(x, g) == Cardinality({k \in 1..(NR(t) * Len(us[g])) : FlatC(t, us[g])[k] = x})
        Sum(x) == Cardinality({k \in DOMAIN flat : flat[k] = x})
        Before(i, j) == IF Sum(u3[i]) = Sum(u3[j]) THEN i < j ELSE IF On("ascending") THEN Sum(u3[i]) < Sum(u3[j]) ELSE Sum(u3[i]) > Sum(u3[j])
        ord == IF On("sort") THEN SortSeq(All(Len(u3)), Before) ELSE All(Len(u3))
        total == Cardinality({k \in DOMAIN flat : flat[k] \in Rng(u3)})
        Name(x) == IF o.ps = <<>> \/ x \notin Rng(o.ps) THEN x
                   ELSE IF o.form = "index" THEN t.ix[1].v[CHOOSE k \in DOMAIN o.ps : o.ps[k] = x]
                   ELSE IF o.form = "columns" THEN t.cx[1].v[CHOOSE k \in DOMAIN o.ps : o.ps[k] = x] ELSE "v" \o x
        V(x, g) == IF On("normalize") THEN NDiv(ToString(N(x, g)), ToString(total)) ELSE ToString(N(x, g))
        ix == <<[n |-> "", v |-> [r \in DOMAIN ord |-> Name(u3[ord[r]])]]>>
        m == [r \in DOMAIN ord |-> [g \in DOMAIN us |-> V(u3[ord[r]], g)]]
    IN  IF Narrow(t, o) THEN [ser |-> TRUE, ix |-> ix, cx |-> NameOf(UnitIx(t, o)), m |-> m] ELSE [ser |-> FALSE, ix |-> ix, cx |-> UnitIx(t, o), m |-> m]
ZScore(t) ==
    LET S(j) == Valid(ColOf(t, j))
        C(i, j) == IF t.m[i][j] = "nan" THEN "nan" ELSE LET v == Var(S(j), 0) IN IF v = "0" THEN "0" ELSE NDiv(NSub(t.m[i][j], Mean(S(j))), NSqrt(v))
    IN  [t EXCEPT !.m = Grid(t, C)]
(* every element as value, column and row, column by column *)
Mapped(t, o) ==
    LET es == FlattenSeq([j \in 1..NC(t) |-> [i \in 1..NR(t) |-> <<t.m[i][j], Z(j), Z(i)>>]])
        kept == IF o.label THEN SelectSeq(es, LAMBDA e : e[1] # "nan") ELSE es
    IN  [ser |-> FALSE, ix |-> Plain(Len(kept)), cx |-> Plain(3), m |-> kept]
----------------------------------------------------------------------------
Out(t, o) ==
    CASE o.op = "along" -> Along(t, o) [] o.op = "map" -> Map(t) [] o.op = "filter" -> Filter(t) [] o.op = "groupby" -> GroupBy(t, o)
      [] o.op = "resample" -> Resample(t, o) [] o.op = "apply" -> Whole(t, o) [] o.op = "reduce" -> Reduce(t, o) [] o.op = "apply_reduce" -> ApplyReduce(t, o)
      [] o.op = "squeeze" -> Squeeze(t, o) [] o.op = "flatten" -> Flatten(t, o) [] o.op = "tile" -> Tile(t, o) [] o.op = "repeat" -> Repeat(t, o)
      [] o.op = "many" -> Many(t, o) [] o.op = "combine" -> Combined(t, o) [] o.op = "concat" -> Concat(t, o)
      [] o.op = "stack" -> Stacked(t, o) [] o.op = "drop" -> Dropped(t, o) [] o.op = "select" -> Selected(t, o) [] o.op = "rename" -> Renamed(t, o)
      [] o.op = "lean" -> Lean(t, o) [] o.op = "dedup" -> Deduped(t, o)
      [] o.op = "describe" -> Describe(t, o) [] o.op = "counts" -> Counts(t, o) [] o.op = "zscore" -> ZScore(t) [] o.op = "mapped" -> Mapped(t, o)
      [] OTHER -> Builtin(t, o)
=============================================================================
