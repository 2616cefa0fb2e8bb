------------------------------- MODULE Params -------------------------------
(* Running an indicator over many parameters.  A run g has inputs (broadcast   *)
(* as in Bc.tla), in-place outputs (given or created), parameters with lists   *)
(* of values, and options; its result is a table with one column for each      *)
(* combination of parameter values and input column:                           *)
(*   [args, ino: [given, a], ps: [n, vals: [l, k, w], hide, dflt, pc], pre,    *)
(*    prod, percol, hd, o, cached, passcol, shape, flex, arg]                  *)
(* A value's kind k is "s" scalar, "t" tuple, "r"/"c"/"f" an array over rows,  *)
(* columns or both; w holds its numbers.                                       *)
EXTENDS Bc
BO == [im |-> [m |-> "strict", at |-> 1, ix |-> <<>>], cm |-> [m |-> "stack", at |-> 1, ix |-> <<>>], dup |-> TRUE, keep |-> "last", red |-> TRUE, ign |-> TRUE,
       to |-> <<>>, pd |-> "", ai |-> FALSE, ac |-> TRUE, fr |-> FALSE]
Given(g) == SelectSeq([i \in DOMAIN g.ino |-> i], LAMBDA i : g.ino[i].given)
Deep(a) == TLCEval([k |-> a.k, r |-> a.r, c |-> a.c, ix |-> TLCEval(a.ix), cx |-> TLCEval(a.cx), v |-> TLCEval(a.v)])
Inputs(g) ==
    LET b == TLCEval(Broadcast(g.args \o [u \in DOMAIN Given(g) |-> g.ino[Given(g)[u]].a], BO))
    IN  IF b.ok THEN [ok |-> TRUE, two |-> b.two, res |-> TLCEval([i \in DOMAIN b.res |-> Deep(b.res[i])])] ELSE [ok |-> FALSE, two |-> FALSE, res |-> <<>>]
----------------------------------------------------------------------------
(* combinations of values, as positions in the lists: the last parameter of a  *)
(* product varies fastest; otherwise lists of one value are stretched          *)
RECURSIVE Lex(_, _)
Lex(ns, i) == IF i > Len(ns) THEN <<<<>>>> ELSE LET r == TLCEval(Lex(ns, i + 1)) IN [x \in 1..(ns[i] * Len(r)) |-> <<((x - 1) \div Len(r)) + 1>> \o r[((x - 1) % Len(r)) + 1]]
NVals(g) == [p \in DOMAIN g.ps |-> Len(g.ps[p].vals)]
Combos(g, cols) ==
    LET ns == NVals(g)
        prod == TLCEval(Lex(ns, 1))
        lists == IF g.prod /\ Len(ns) > 1 THEN [p \in DOMAIN ns |-> [x \in DOMAIN prod |-> prod[x][p]]] ELSE [p \in DOMAIN ns |-> [x \in 1..ns[p] |-> x]]
        n == IF g.percol THEN cols ELSE MaxOf([p \in DOMAIN ns |-> Len(lists[p])])
    IN  IF ns = <<>> THEN [x \in 1..(IF g.percol THEN cols ELSE 1) |-> <<>>]
        ELSE [x \in 1..n |-> [p \in DOMAIN ns |-> lists[p][IF Len(lists[p]) = 1 THEN 1 ELSE x]]]
Fits(g, cols) ==
    LET ns == NVals(g) prod == TLCEval(Lex(ns, 1)) ls == IF g.prod /\ Len(ns) > 1 THEN [p \in DOMAIN ns |-> Len(prod)] ELSE ns
    IN  ns = <<>> \/ \A p \in DOMAIN ls : ls[p] \in {1, IF g.percol THEN cols ELSE MaxOf(ls)}
(* what itertools picks out of n things, r at a time, in lexicographic order *)
Pick(n, r, how) ==
    LET all == TLCEval(Lex([i \in 1..r |-> n], 1))
        Good(s) == CASE how = "product" -> TRUE
                     [] how = "permutations" -> \A i, j \in 1..r : i < j => s[i] # s[j]
                     [] how = "combinations" -> \A i, j \in 1..r : i < j => s[i] < s[j]
                     [] OTHER -> \A i, j \in 1..r : i < j => s[i] <= s[j]
    IN  SelectSeq(all, Good)
(* trees of ways to combine lists of values: the flat value sequences, one per combination *)
RECURSIVE Tree(_)
Tree(t) ==
    IF t.f = "values" THEN [i \in DOMAIN t.v |-> <<t.v[i]>>]
    ELSE LET subs == TLCEval([i \in DOMAIN t.a |-> Tree(t.a[i])])
         IN  CASE t.f \in {"product", "zip"} ->
                    LET picks == IF t.f = "product" THEN Lex([i \in DOMAIN subs |-> Len(subs[i])], 1)
                                 ELSE [k \in 1..(CHOOSE m \in {Len(subs[i]) : i \in DOMAIN subs} : \A i \in DOMAIN subs : m <= Len(subs[i])) |-> [i \in DOMAIN subs |-> k]]
                    IN  TLCEval([k \in DOMAIN picks |-> FlattenSeq([i \in DOMAIN subs |-> subs[i][picks[k][i]]])])
               [] OTHER ->
                    LET picks == Pick(Len(subs[1]), t.r, t.f)
                    IN  TLCEval([k \in DOMAIN picks |-> FlattenSeq([i \in 1..t.r |-> subs[1][picks[k][i]]])])
(* one list per position *)
ByPosition(rows) == IF rows = <<>> THEN <<>> ELSE [p \in DOMAIN rows[1] |-> [k \in DOMAIN rows |-> rows[k][p]]]
----------------------------------------------------------------------------
(* labels *)
Const(v) == \A i \in DOMAIN v.w : v.w[i] = v.w[1]
Label(v, k) == CASE v.k = "s" -> v.l [] v.k = "t" -> "tuple_" \o ToString(k - 1) [] Const(v) -> ToString(v.w[1]) [] OTHER -> "array_" \o ToString(k - 1)
Val(g, c, p) == g.ps[p].vals[c[p]]
(* the parameter p of every column of the result *)
Mapper(g, cs, p, cols) ==
    IF g.percol THEN [x \in 1..cols |-> Label(Val(g, cs[x], p), x)]
    ELSE [x \in 1..(Len(cs) * cols) |-> LET k == ((x - 1) \div cols) + 1 v == Val(g, cs[k], p)
          IN  IF g.ps[p].pc /\ v.k = "c" THEN ToString(v.w[((x - 1) % cols) + 1]) ELSE Label(v, k)]
Shown(g, p) == ~g.ps[p].hide /\ ~(g.hd /\ g.ps[p].dflt)
Level(g, p) == g.pre \o g.ps[p].n
Columns(g, cs, cx, cols) ==
    LET sh == SelectSeq([p \in DOMAIN g.ps |-> p], LAMBDA p : Shown(g, p))
        base == IF g.percol \/ Len(cs) = 1 THEN cx ELSE [l \in DOMAIN cx |-> [n |-> cx[l].n, v |-> TLCEval(TileSeq(cx[l].v, Len(cs)))]]
    IN  IF sh = <<>> THEN base ELSE Stack([u \in DOMAIN sh |-> <<[n |-> Level(g, sh[u]), v |-> Mapper(g, cs, sh[u], cols)]>>] \o <<base>>, g.o)
----------------------------------------------------------------------------
(* the function that is run: cells of one combination on one input column *)
Weight(v, i, j, cols) ==
    CASE v.k = "s" -> v.w[1] [] v.k = "t" -> FoldSeq(LAMBDA a, b : a + b, 0, v.w) [] v.k = "r" -> v.w[i] [] v.k = "c" -> v.w[j] [] OTHER -> v.w[(i - 1) * cols + j]
Total(v) == CASE v.k = "s" -> v.w[1] [] OTHER -> FoldSeq(LAMBDA a, b : a + b, 0, v.w)
W(g, c, p, i, j, cols) == IF p > Len(g.ps) THEN 0 ELSE Weight(Val(g, c, p), i, j, cols)
Cell(a, i, j) == a.v[(i - 1) * a.c + j]
RECURSIVE CumX(_, _, _)
CumX(a, i, j) == IF i = 0 THEN 0 ELSE CumX(a, i - 1, j) + Cell(a, i, j)
Block(g, b, c, j) ==
    LET x == b.res[1] y == b.res[2] R == x.r C == x.c
        Extra == (IF g.passcol /\ g.percol THEN (j - 1) * 1000000 ELSE 0) + (IF g.shape THEN R * (IF g.percol THEN 1 ELSE C) * 10000000 ELSE 0)
                 + (IF g.flex /\ b.two /\ ~g.percol THEN 200000000 ELSE 0) + g.arg * 1000000000
                 + (IF g.cached /\ Len(g.ps) > 0 THEN 5 * Total(Val(g, c, 1)) ELSE 0)
        In(u, i) == IF g.ino[u].given THEN Cell(b.res[Len(g.args) + (CHOOSE n \in DOMAIN Given(g) : Given(g)[n] = u)], i, j) ELSE 0
    IN  [ino |-> TLCEval([u \in DOMAIN g.ino |-> TLCEval([i \in 1..R |-> In(u, i) + u * W(g, c, u, i, j, C) + (IF u = 1 THEN Cell(x, i, j) ELSE 2 * i)])]),
         out |-> << TLCEval([i \in 1..R |-> Cell(x, i, j) * W(g, c, 1, i, j, C) + 100 * Cell(y, i, j) + 10000 * W(g, c, 2, i, j, C) + Extra]),
                    TLCEval([i \in 1..R |-> CumX(x, i, j) + 10 * W(g, c, 1, i, j, C) - Cell(y, 1, j)]) >>]
(* combination and input column of each column of the result *)
Source(g, cs, cols) == IF g.percol THEN [x \in 1..cols |-> <<x, x>>] ELSE [x \in 1..(Len(cs) * cols) |-> <<((x - 1) \div cols) + 1, ((x - 1) % cols) + 1>>]
Run(g, cs) ==
    LET b == TLCEval(Inputs(g))
        C == b.res[1].c R == b.res[1].r
        src == TLCEval(Source(g, cs, C))
        blk == TLCEval([x \in DOMAIN src |-> TLCEval(Block(g, b, cs[src[x][1]], src[x][2]))])
        In(a) == TLCEval([q \in DOMAIN src |-> TLCEval([i \in 1..R |-> Cell(a, i, src[q][2])])])
    IN  [ix |-> IF b.res[1].k = "np" THEN Plain(R) ELSE b.res[1].ix,
         cx |-> TLCEval(Columns(g, cs, IF b.res[1].k = "np" THEN Plain(C) ELSE b.res[1].cx, C)), src |-> src, series |-> ~b.two /\ Len(src) = 1,
         maps |-> TLCEval([p \in DOMAIN g.ps |-> TLCEval(Mapper(g, cs, p, C))]), x |-> In(b.res[1]), y |-> In(b.res[2]),
         ino |-> TLCEval([u \in DOMAIN g.ino |-> TLCEval([q \in DOMAIN src |-> TLCEval(blk[q].ino[u])])]),
         out |-> TLCEval([u \in 1..2 |-> TLCEval([q \in DOMAIN src |-> TLCEval(blk[q].out[u])])])]
----------------------------------------------------------------------------
(* selections: cols and rows kept, and the column labels *)
View(r) == [pos |-> [x \in DOMAIN r.src |-> x], rows |-> [i \in 1..Len(r.x[1]) |-> i], cx |-> r.cx]
Match(r, s, ps, key) == SelectSeq(s.pos, LAMBDA x : \A u \in DOMAIN ps : r.maps[ps[u]][x] = key[u])
Where(s, x, from) == CHOOSE q \in DOMAIN s.pos : q >= from /\ s.pos[q] = x
(* places in s.pos that carry the key, in order *)
Places(r, s, ps, key) == SelectSeq([q \in DOMAIN s.pos |-> q], LAMBDA q : \A u \in DOMAIN ps : r.maps[ps[u]][s.pos[q]] = key[u])
Keep2(s, places) == [s EXCEPT !.pos = [q \in DOMAIN places |-> s.pos[places[q]]], !.cx = Sub(s.cx, places)]
DropLevels(cx, names) ==
    LET left == SelectSeq([l \in DOMAIN cx |-> l], LAMBDA l : cx[l].n \notin names)
    IN  IF Len(cx) = 1 \/ left = <<>> THEN cx ELSE [u \in DOMAIN left |-> cx[left[u]]]
ByParam(g, r, s, ps, keys, single) ==
    LET places == FlattenSeq([u \in DOMAIN keys |-> Places(r, s, ps, keys[u])])
        t == Keep2(s, places)
    IN  IF single THEN [t EXCEPT !.cx = DropLevels(t.cx, {Level(g, ps[u]) : u \in DOMAIN ps})] ELSE t
ByRange(g, r, s, p, lo, hi, num) ==
    Keep2(s, SelectSeq([q \in DOMAIN s.pos |-> q], LAMBDA q : num[r.maps[p][s.pos[q]]] >= lo /\ num[r.maps[p][s.pos[q]]] <= hi))
ByPlace(s, cols, rows) == [Keep2(s, cols) EXCEPT !.rows = [i \in DOMAIN rows |-> s.rows[rows[i]]]]
Show(r, s) ==
    LET T(t) == TLCEval([q \in DOMAIN s.pos |-> TLCEval([i \in DOMAIN s.rows |-> t[s.pos[q]][s.rows[i]]])])
    IN  [cx |-> s.cx, ix |-> Sub(r.ix, s.rows), x |-> T(r.x), y |-> T(r.y), ino |-> [u \in DOMAIN r.ino |-> T(r.ino[u])], out |-> [u \in DOMAIN r.out |-> T(r.out[u])],
         maps |-> [p \in DOMAIN r.maps |-> [q \in DOMAIN s.pos |-> r.maps[p][s.pos[q]]]]]
=============================================================================
