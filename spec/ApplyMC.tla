------------------------------ MODULE ApplyMC -------------------------------
(* Chains of operations on small tables: what one gives, the next is given.    *)
EXTENDS Apply, Rep
CONSTANTS D, MaxCells
VARIABLES t, h
vars == <<t, h>>
Ab(s) == [n |-> "", v |-> s]
Start == { [ser |-> FALSE, ix |-> <<Ab(<<"s", "t">>)>>, cx |-> <<Ab(<<"a", "b">>)>>, m |-> << <<"x1", "nan">>, <<"x3", "x4">> >>],
           [ser |-> FALSE, ix |-> Plain(2), cx |-> << [n |-> "k", v |-> <<"u", "u", "w">>], Ab(<<"a", "b", "a">>) >>, m |-> << <<"x1", "x2", "x3">>, <<"x4", "nan", "x6">> >>],
           [ser |-> TRUE, ix |-> <<Ab(<<"s", "t", "u">>)>>, cx |-> Named("A"), m |-> << <<"x1">>, <<"nan">>, <<"x3">> >>],
           [ser |-> FALSE, ix |-> <<[n |-> "d", v |-> <<"s">>]>>, cx |-> Plain(3), m |-> << <<"x1", "x2", "nan">> >>] }
Init == t \in Start /\ h = [t0 |-> t, ops |-> <<>>, ts |-> <<>>]
O(name) == [Op0 EXCEPT !.op = name]
Key(n) == << [n |-> "key", v |-> SubSeq(<<"P", "Q", "R">>, 1, n)] >>
Like(x) == [k |-> "like", m |-> [i \in DOMAIN x.m |-> [j \in DOMAIN x.m[i] |-> "y" \o ToString(((i + j) % 3))]]]
Num1 == [k |-> "num", m |-> << <<"z">> >>]
(* groups of columns: a run of g, then of h *)
By(x, cut) == [j \in 1..NC(x) |-> IF j <= cut THEN "g" ELSE "h"]
Bys(x) == {By(x, cut) : cut \in 1..NC(x)}
Forms == {"np", "pd", "np2", "pd2"}
Free(x) ==
    {[O("along") EXCEPT !.axis = a] : a \in {0, 1}} \cup {O("map"), O("filter"), O("apply_reduce")}
    \cup {[O("groupby") EXCEPT !.by = [i \in 1..NR(x) |-> IF i % 2 = 1 THEN "q" ELSE "p"], !.mat = b] : b \in BOOLEAN}
    \cup {[O("apply") EXCEPT !.form = f] : f \in Forms}
    \cup {[O(p) EXCEPT !.n = 2, !.axis = a, !.keys = k] : p \in {"tile", "repeat"}, a \in {0, 1}, k \in {<<>>, Key(2)}}
    \cup {[O("many") EXCEPT !.n = 2, !.form = f, !.keys = k] : f \in {"np", "pd2"}, k \in {<<>>, Key(2)}}
    \cup {[O("combine") EXCEPT !.others = <<Like(x), Num1>>, !.flat = b, !.form = f] : b \in BOOLEAN, f \in {"np2", "pd"}}
    \cup {[O("concat") EXCEPT !.others = <<Like(x)>>, !.keys = k] : k \in {<<>>, Key(2)}}
    \cup {[O("stack") EXCEPT !.axis = IF x.ser THEN 0 ELSE a, !.top = b, !.keys = <<[n |-> "new", v |-> [i \in 1..(IF x.ser \/ a = 0 THEN NR(x) ELSE NC(x)) |-> "n" \o ToString(i % 2)]]>>] : a \in {0, 1}, b \in BOOLEAN}
    \cup {[O(p) EXCEPT !.axis = IF x.ser THEN 0 ELSE a, !.n = 1] : p \in {"drop", "lean", "dedup"}, a \in {0, 1}}
    \cup {[O("reduce") EXCEPT !.arr = b, !.idx = i, !.label = FALSE] : b \in BOOLEAN, i \in BOOLEAN}
Wide(x) == {[O("squeeze") EXCEPT !.by = b] : b \in Bys(x)} \cup {[O("flatten") EXCEPT !.by = b, !.order = r] : b \in Bys(x), r \in {"C", "F"}}
    \cup {[O("reduce") EXCEPT !.by = b, !.flat = f, !.order = IF f THEN r ELSE "C", !.arr = FALSE] : b \in Bys(x), f \in BOOLEAN, r \in {"C", "F"}}
Menu(x) == Free(x) \cup (IF x.ser THEN {} ELSE Wide(x))
Stuck(x) == x.ix = NoIx
Next == /\ Len(h.ops) < D /\ ~Stuck(t)
        /\ \E o \in Menu(t) : LET w == TLCEval(Out(t, o)) IN
            /\ NR(w) * NC(w) <= MaxCells
            /\ t' = w /\ h' = [h EXCEPT !.ops = Append(@, o), !.ts = Append(@, w)]
            /\ IF Len(h.ops) + 1 = D \/ Stuck(w) THEN Emit(h') ELSE TRUE
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Levelled(ix, n) == \A l \in DOMAIN ix : Len(ix[l].v) = n
Shaped == Levelled(t.cx, NC(t)) /\ (Stuck(t) \/ Levelled(t.ix, NR(t))) /\ (t.ser => NC(t) = 1) /\ \A i \in 1..NR(t) : Len(t.m[i]) = NC(t)
Bag(m, x) == Cardinality({<<i, j>> \in {<<i, j>> : i \in DOMAIN m, j \in DOMAIN m[1]} : m[i][j] = x})
Cells(m) == {m[i][j] : i \in DOMAIN m, j \in DOMAIN m[1]}
Did == h.ops[Len(h.ops)]
Before == IF Len(h.ops) = 1 THEN h.t0 ELSE h.ts[Len(h.ops) - 1]
Is(ops) == h.ops # <<>> /\ Did.op \in ops
(* copies: every element as often as there are copies *)
Copies == Is({"tile", "repeat"}) => \A x \in Cells(Before.m) \cup Cells(t.m) : Bag(t.m, x) = Did.n * Bag(Before.m, x)
(* tiling and repeating differ in order only, and rows and columns commute *)
TwoWays == Is({"tile"}) /\ Did.keys = <<>> => LET b == Out(Before, [Did EXCEPT !.op = "repeat"]) IN \A x \in Cells(t.m) : Bag(t.m, x) = Bag(b.m, x)
(* flattening by group moves every element once, into its own group, in rows' or columns' order *)
Moves == Is({"flatten"}) => LET us == GroupCols(Did) IN
    \A g \in DOMAIN us : Valid(ColOf(t, g)) = Valid(Flat(Before, us[g], Did.order))
(* a group of one column is reduced as that column is, flattened or not *)
Alone == Is({"reduce"}) /\ Did.by # <<>> => LET us == GroupCols(Did) IN
    \A g \in DOMAIN us : Len(us[g]) = 1 => LET v == IF Narrow(Before, Did) THEN t.m[1][1] ELSE t.m[g][1]
                                            IN v = T("d0." \o Z(g), ColOf(Before, us[g][1]))
(* rows split by label: every row in one stretch, and labels in order *)
Split == Is({"groupby"}) => LET u == t.ix[1].v IN /\ Rng(u) = Rng(Did.by) /\ \A g \in 1..(Len(u) - 1) : \E i, j \in 1..3 : i < j /\ Letters[i] = u[g] /\ Letters[j] = u[g + 1]
                                               /\ ILen(t.ix) = Cardinality(Rng(Did.by))
(* combining side by side is combining with each *)
Sides == Is({"combine"}) /\ Did.flat => \A b \in DOMAIN Did.others : LET s == Out(Before, [Did EXCEPT !.flat = FALSE, !.others = <<Did.others[b]>>]) IN
    s.ix = Before.ix /\ s.cx = Before.cx /\ \A i \in 1..NR(t) : SubSeq(t.m[i], ((b - 1) * NC(Before)) + 1, b * NC(Before)) = s.m[i]
(* a concatenation starts with the object *)
Leads == Is({"concat"}) => \A i \in 1..NR(t) : SubSeq(t.m[i], 1, NC(Before)) = Before.m[i]
(* where labels may only be told apart by a level, one copy is the object under that key *)
Under == Is({"tile"}) /\ Did.axis = 1 /\ Did.keys # <<>> => \A j \in 1..NC(t) : t.cx[1].v[j] = Did.keys[1].v[((j - 1) \div NC(Before)) + 1]
(* filtering forgets, mapping keeps what is missing *)
Sieve == Is({"filter", "map"}) => \A i \in 1..NR(t), j \in 1..NC(t) : (Before.m[i][j] = "nan" => t.m[i][j] = "nan") /\ (Did.op = "filter" => t.m[i][j] \in {"nan", Before.m[i][j]})
(* changing labels leaves elements *)
Inert == Is({"stack", "drop", "lean", "dedup", "rename", "select"}) => t.m = Before.m /\ (IF Did.axis = 0 THEN t.cx = Before.cx ELSE t.ix = Before.ix)
=============================================================================
