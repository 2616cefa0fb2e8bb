-------------------------------- MODULE Conf --------------------------------
(* Configurations as a heap of nodes.  A reference is an integer: r > 0 is the *)
(* node heap[r], r <= 0 the number -r.  A node has a kind (dict, atomic,       *)
(* config, list), its ordered items (pairs of key and reference), and, for a   *)
(* config, its flags and the node of its reset dictionary.  Lists stand for    *)
(* mutable values.  Every operation is a function from a heap to a result      *)
(* [h: heap, r: reference, err: "" or the exception].                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoFlags == [frozen |-> FALSE, ro |-> FALSE, nested |-> FALSE, conv |-> FALSE, attrs |-> FALSE, cm |-> "hybrid", cn |-> FALSE, rm |-> "hybrid", rn |-> FALSE]
Node(kind, items) == [k |-> kind, items |-> items, f |-> NoFlags, reset |-> 0]
IsNode(r) == r > 0
IsDict(h, r) == r > 0 /\ h[r].k # "list"
Res(h, r, err) == [h |-> h, r |-> r, err |-> err]
Fine(h, r) == Res(h, r, "")
Alloc(h, node) == Fine(Append(h, node), Len(h) + 1)
Pos(items, key) == LET S == {j \in 1..Len(items) : items[j][1] = key} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : TRUE
Has(items, key) == Pos(items, key) > 0
Get(items, key) == items[Pos(items, key)][2]
PutItem(items, key, r) == IF Has(items, key) THEN [items EXCEPT ![Pos(items, key)] = <<key, r>>] ELSE Append(items, <<key, r>>)
DropItem(items, key) == SelectSeq(items, LAMBDA it : it[1] # key)
Range(s) == {s[j] : j \in 1..Len(s)}

(* ------------------------------------------------------------------ copies *)
Succ(h, r) == {it[2] : it \in {x \in Range(h[r].items) : x[2] > 0}} \cup (IF h[r].reset > 0 THEN {h[r].reset} ELSE {})
RECURSIVE Reach(_, _, _)
Reach(h, front, seen) == IF front \subseteq seen THEN seen ELSE Reach(h, UNION {Succ(h, r) : r \in front \ seen}, seen \cup front)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o SetSeq(S \ {m})
DeepCopy(h, r) ==
    IF r <= 0 THEN Fine(h, r) ELSE
    LET q == TLCEval(SetSeq(Reach(h, {r}, {})))
        new(x) == IF x <= 0 THEN x ELSE Len(h) + (CHOOSE j \in 1..Len(q) : q[j] = x)
        copy(node) == [node EXCEPT !.items = [j \in 1..Len(node.items) |-> <<node.items[j][1], new(node.items[j][2])>>], !.reset = new(node.reset)]
    IN Fine(TLCEval(h \o [j \in 1..Len(q) |-> copy(h[q[j]])]), new(r))
(* one level copied *)
CopyVal(h, r) == IF r <= 0 THEN Fine(h, r) ELSE Alloc(h, h[r])
RECURSIVE CopyDict(_, _, _, _), CopyItems(_, _, _, _, _), ConfigCopy(_, _, _, _, _, _)
(* the items of a dictionary copied one by one: [h, items] *)
CopyItems(h, items, j, mode, nested) ==
    IF j > Len(items) THEN [h |-> h, items |-> items]
    ELSE LET v == items[j][2]
             w == TLCEval(IF nested /\ IsDict(h, v) THEN CopyDict(h, v, mode, nested) ELSE IF mode = "hybrid" THEN CopyVal(h, v) ELSE Fine(h, v))
         IN CopyItems(w.h, [items EXCEPT ![j] = <<@[1], w.r>>], j + 1, mode, nested)
CopyAll(h, items, mode, nested) ==
    IF mode = "deep" THEN LET a == Alloc(h, Node("dict", items)) d == TLCEval(DeepCopy(a.h, a.r)) IN [h |-> d.h, items |-> d.h[d.r].items]
    ELSE CopyItems(h, items, 1, mode, nested)
(* Config.copy *)
ConfigCopy(h, r, mode, nested, rmode, rnested) ==
    LET a == TLCEval(CopyAll(h, h[h[r].reset].items, rmode, rnested))
        b == Alloc(a.h, Node("dict", a.items))
        c == TLCEval(CopyAll(b.h, h[r].items, mode, nested))
    IN Alloc(c.h, [h[r] EXCEPT !.items = c.items, !.reset = b.r])
CopyDict(h, r, mode, nested) ==
    IF mode = "deep" THEN DeepCopy(h, r)
    ELSE IF h[r].k = "config" THEN ConfigCopy(h, r, mode, nested, mode, nested)
    ELSE LET c == TLCEval(CopyItems(h, h[r].items, 1, mode, nested)) IN Alloc(c.h, [h[r] EXCEPT !.items = c.items])
RECURSIVE ToDict(_, _, _), ToDictItems(_, _, _)
ToDictItems(h, items, j) ==
    IF j > Len(items) THEN [h |-> h, items |-> items]
    ELSE LET v == items[j][2] w == TLCEval(IF IsDict(h, v) THEN ToDict(h, v, TRUE) ELSE Fine(h, v))
         IN ToDictItems(w.h, [items EXCEPT ![j] = <<@[1], w.r>>], j + 1)
ToDict(h, r, nested) ==
    LET kind == IF h[r].k = "atomic" THEN "atomic" ELSE "dict"
        c == TLCEval(IF nested THEN ToDictItems(h, h[r].items, 1) ELSE [h |-> h, items |-> h[r].items])
    IN Alloc(c.h, Node(kind, c.items))

(* ------------------------------------------------------------ constructing *)
Opt(x, default) == IF x = "none" THEN default ELSE x
OptB(x, default) == IF x = "none" THEN default ELSE x = "yes"
(* a: [frozen, ro, nested, conv, attrs, cm, cn, rm, rn: given or "none"], rs: reference of a given reset dictionary or 0 *)
RECURSIVE Init(_, _, _, _), ConvItems(_, _, _, _)
Given(f) == [frozen |-> IF f.frozen THEN "yes" ELSE "no", ro |-> IF f.ro THEN "yes" ELSE "no", nested |-> IF f.nested THEN "yes" ELSE "no",
             conv |-> IF f.conv THEN "yes" ELSE "no", attrs |-> IF f.attrs THEN "yes" ELSE "no",
             cm |-> f.cm, cn |-> IF f.cn THEN "yes" ELSE "no", rm |-> f.rm, rn |-> IF f.rn THEN "yes" ELSE "no"]
ConvItems(h, items, j, f) ==
    IF j > Len(items) THEN [h |-> h, items |-> items]
    ELSE LET v == items[j][2]
             w == TLCEval(IF v > 0 /\ h[v].k \in {"dict", "atomic"} THEN Init(h, v, Given(f), 0) ELSE Fine(h, v))
         IN ConvItems(w.h, [items EXCEPT ![j] = <<@[1], w.r>>], j + 1, f)
Init(h, r, a, rs) ==
    LET src == IF r > 0 /\ h[r].k = "config" THEN h[r].f ELSE NoFlags
        isc == r > 0 /\ h[r].k = "config"
        fr == OptB(a.frozen, src.frozen)
        ro == OptB(a.ro, src.ro)
        ne == OptB(a.nested, src.nested)
        co == OptB(a.conv, src.conv)
        at == OptB(a.attrs, IF isc THEN src.attrs ELSE fr \/ ro)
        dm == IF ro THEN "shallow" ELSE "hybrid"
        cm == Opt(a.cm, IF isc THEN src.cm ELSE dm)
        cn == OptB(a.cn, IF isc THEN src.cn ELSE ne)
        rm == IF a.rm # "none" THEN a.rm ELSE IF a.cm # "none" THEN a.cm ELSE IF isc THEN src.rm ELSE dm
        rn == IF a.rn # "none" THEN a.rn = "yes" ELSE IF a.cn # "none" THEN a.cn = "yes" ELSE IF isc THEN src.rn ELSE ne
        f == [frozen |-> fr, ro |-> ro, nested |-> ne, conv |-> co, attrs |-> at, cm |-> cm, cn |-> cn, rm |-> rm, rn |-> rn]
        items == IF r > 0 THEN h[r].items ELSE <<>>
        c0 == TLCEval(CopyAll(h, items, cm, cn))
        c1 == TLCEval(IF co THEN ConvItems(c0.h, c0.items, 1, f) ELSE c0)
        ritems == IF rs > 0 THEN h[rs].items ELSE IF isc THEN h[h[r].reset].items ELSE c1.items
        c2 == TLCEval(CopyAll(c1.h, ritems, rm, rn))
        d == Alloc(c2.h, Node("dict", c2.items))
    IN IF co /\ ~ne THEN Res(h, 0, "ValueError")
       ELSE Alloc(d.h, [k |-> "config", items |-> c1.items, f |-> f, reset |-> d.r])

(* --------------------------------------------------------------- mutations *)
Denied(h, r, force) == h[r].k = "config" /\ ~force /\ h[r].f.ro
FrozenKeys(h, r, force) == h[r].k = "config" /\ ~force /\ h[r].f.frozen
Put(h, r, key, v, force) ==
    IF Denied(h, r, force) THEN Res(h, r, "TypeError")
    ELSE IF FrozenKeys(h, r, force) /\ ~Has(h[r].items, key) THEN Res(h, r, "KeyError")
    ELSE Fine([h EXCEPT ![r].items = PutItem(@, key, v)], r)
Remove(h, r, key, force) ==
    IF Denied(h, r, force) THEN Res(h, r, "TypeError")
    ELSE IF FrozenKeys(h, r, force) \/ ~Has(h[r].items, key) THEN Res(h, r, "KeyError")
    ELSE Fine([h EXCEPT ![r].items = DropItem(@, key)], Get(h[r].items, key))
Clear(h, r, force) ==
    IF Denied(h, r, force) THEN Res(h, r, "TypeError")
    ELSE IF FrozenKeys(h, r, force) THEN Res(h, r, "KeyError")
    ELSE Fine([h EXCEPT ![r].items = <<>>], r)
RECURSIVE UpdateDict(_, _, _, _, _, _, _)
(* items j.. of another dictionary put into node x; stops at the first refusal *)
UpdateDict(h, x, items, j, nested, force, same) ==
    IF j > Len(items) THEN Fine(h, x)
    ELSE LET key == items[j][1] v == items[j][2] old == IF Has(h[x].items, key) THEN Get(h[x].items, key) ELSE 0
             deep == nested /\ Has(h[x].items, key) /\ IsDict(h, old) /\ IsDict(h, v) /\ h[old].k # "atomic" /\ h[v].k # "atomic"
             w == TLCEval(IF deep THEN UpdateDict(h, old, h[v].items, 1, nested, force, same)
                          ELSE IF same /\ ~Has(h[x].items, key) THEN Fine(h, x)
                          ELSE Put(h, x, key, v, force))
         IN IF w.err # "" THEN Res(w.h, x, w.err) ELSE UpdateDict(w.h, x, items, j + 1, nested, force, same)
Update(h, r, items, nested, force) ==
    IF Denied(h, r, force) THEN Res(h, r, "TypeError") ELSE UpdateDict(h, r, items, 1, nested, force, FALSE)
(* merging a sequence of references into a new dictionary *)
RECURSIVE MapDicts(_, _, _, _, _), Fold(_, _, _, _)
(* mode "" converts, any other mode copies *)
MapDicts(h, rs, j, mode, nested) ==
    IF j > Len(rs) THEN [h |-> h, rs |-> rs]
    ELSE LET w == TLCEval(IF mode = "" THEN ToDict(h, rs[j], nested) ELSE CopyDict(h, rs[j], mode, nested))
         IN MapDicts(w.h, [rs EXCEPT ![j] = w.r], j + 1, mode, nested)
Fold(h, rs, nested, same) ==
    IF Len(rs) = 1 THEN Fine(h, rs[1])
    ELSE LET x == rs[1] y == rs[2]
             take == \/ (h[x].k = "dict" /\ h[y].k = "dict" /\ h[x].items = <<>> /\ ~same) \/ h[x].k = "atomic" \/ h[y].k = "atomic"
             w == TLCEval(IF take THEN Fine(h, y) ELSE UpdateDict(h, x, h[y].items, 1, nested, TRUE, same))
         IN Fold(w.h, <<w.r>> \o SubSeq(rs, 3, Len(rs)), nested, same)
Merge(h, rs, todict, mode, nested, same) ==
    LET a == TLCEval(IF todict THEN MapDicts(h, rs, 1, "", nested) ELSE [h |-> h, rs |-> rs])
        b == TLCEval(IF ~todict \/ mode # "shallow" THEN MapDicts(a.h, a.rs, 1, mode, nested) ELSE a)
    IN Fold(b.h, b.rs, nested, same)

(* ------------------------------------------------------ reset, copy, reload *)
Reset(h, r, force) ==
    IF Denied(h, r, force) THEN Res(h, r, "TypeError")
    ELSE LET f == h[r].f
             old == h[h[r].reset].items
             c == TLCEval(CopyAll(h, old, f.rm, f.rn))
             d == Alloc(c.h, Node("dict", c.items))
         IN Fine([d.h EXCEPT ![r].items = old, ![r].reset = d.r], r)
Checkpoint(h, r, force) ==
    IF Denied(h, r, force) THEN Res(h, r, "TypeError")
    ELSE LET f == h[r].f
             c == TLCEval(CopyAll(h, h[r].items, f.rm, f.rn))
             d == Alloc(c.h, Node("dict", c.items))
         IN Fine([d.h EXCEPT ![r].reset = d.r], r)
Copy(h, r, mode, nested, rmode) ==
    LET f == h[r].f IN
    ConfigCopy(h, r, Opt(mode, f.cm), OptB(nested, f.cn), IF rmode # "none" THEN rmode ELSE Opt(mode, f.rm), OptB(nested, f.rn))
(* a config written out and read again: fresh values, then constructed with all settings given *)
RECURSIVE Reload(_, _), ReloadItems(_, _, _)
ReloadItems(h, items, j) ==
    IF j > Len(items) THEN [h |-> h, items |-> items]
    ELSE LET v == items[j][2]
             w == TLCEval(IF v <= 0 THEN Fine(h, v) ELSE IF h[v].k = "config" THEN Reload(h, v)
                          ELSE LET c == TLCEval(ReloadItems(h, h[v].items, 1)) IN Alloc(c.h, [h[v] EXCEPT !.items = c.items]))
         IN ReloadItems(w.h, [items EXCEPT ![j] = <<@[1], w.r>>], j + 1)
Reload(h, r) ==
    LET a == TLCEval(ReloadItems(h, h[r].items, 1))
        x == Alloc(a.h, Node("dict", a.items))
        b == TLCEval(ReloadItems(x.h, h[h[r].reset].items, 1))
        y == Alloc(b.h, Node("dict", b.items))
    IN Init(y.h, x.r, Given(h[r].f), y.r)
LoadUpdate(h, r, src) == LET c == TLCEval(Reload(h, src)) IN Fine([c.h EXCEPT ![r] = c.h[c.r]], r)

(* ------------------------------------------------ literals, canonical heaps *)
RECURSIVE Lit(_, _), LitItems(_, _, _)
LitItems(h, items, j) ==
    IF j > Len(items) THEN [h |-> h, items |-> <<>>]
    ELSE LET w == TLCEval(Lit(h, items[j][2])) rest == TLCEval(LitItems(w.h, items, j + 1))
         IN [h |-> rest.h, items |-> <<<<items[j][1], w.r>>>> \o rest.items]
Lit(h, t) == IF t.k = "int" THEN Fine(h, -t.v) ELSE LET c == TLCEval(LitItems(h, t.items, 1)) IN Alloc(c.h, Node(t.k, c.items))
(* nodes reachable from the roots numbered in the order they are met; the items of a node by rank of their keys *)
Keys == <<"a", "b", "c", "d", "e", "0", "1">>
Sorted(items) == SelectSeq([j \in 1..Len(Keys) |-> IF Has(items, Keys[j]) THEN <<Keys[j], Get(items, Keys[j])>> ELSE <<"", 0>>], LAMBDA it : it[1] # "")
RECURSIVE Visit(_, _, _)
Visit(h, stack, seen) ==
    IF stack = <<>> THEN seen
    ELSE LET r == Head(stack) IN
         IF r <= 0 \/ \E j \in 1..Len(seen) : seen[j] = r THEN Visit(h, Tail(stack), seen)
         ELSE LET its == Sorted(h[r].items) IN
              Visit(h, [j \in 1..Len(its) |-> its[j][2]] \o <<h[r].reset>> \o Tail(stack), Append(seen, r))
Canon(h, roots) ==
    LET q == TLCEval(Visit(h, roots, <<>>))
        at == [r \in Range(q) |-> CHOOSE j \in 1..Len(q) : q[j] = r]
        nm(r) == IF r <= 0 THEN r ELSE at[r]
    IN [roots |-> [j \in 1..Len(roots) |-> nm(roots[j])],
        heap |-> [j \in 1..Len(q) |-> LET n == h[q[j]] its == Sorted(n.items) IN
                    [k |-> n.k, f |-> IF n.k = "config" THEN n.f ELSE <<>>, reset |-> nm(n.reset), items |-> [i \in 1..Len(its) |-> <<its[i][1], nm(its[i][2])>>]]]]
(* the value a reference stands for, without identities *)
RECURSIVE Value(_, _)
Value(h, r) == IF r <= 0 THEN [k |-> "int", v |-> -r, items |-> {}]
               ELSE [k |-> h[r].k, v |-> 0, items |-> {<<it[1], Value(h, it[2])>> : it \in Range(h[r].items)}]
Contents(h, r) == {<<it[1], Value(h, it[2])>> : it \in Range(h[r].items)}
RECURSIVE Alike(_, _, _), AlikeItems(_, _, _)
AlikeItems(h, a, b) == Len(h[a].items) = Len(h[b].items) /\ \A j \in 1..Len(h[a].items) : Has(h[b].items, h[a].items[j][1]) /\ Alike(h, h[a].items[j][2], Get(h[b].items, h[a].items[j][1]))
Alike(h, a, b) == IF a <= 0 \/ b <= 0 \/ a = b THEN a = b ELSE h[a].k = h[b].k /\ AlikeItems(h, a, b)
Apart(h, a, b) == Reach(h, {a}, {}) \cap Reach(h, {b}, {}) = {}

(* -------------------------------------------------------- named operations *)
(* st: [h, roots]; o: an operation on root o.x; the result may be a new root *)
YN(x) == x = "yes"
Step(st, o) ==
    LET h == st.h
        r == st.roots[o.x]
        lit == TLCEval(IF "lit" \in DOMAIN o THEN Lit(h, o.lit) ELSE Fine(h, 0))
        force == "force" \in DOMAIN o /\ o.force
        same(w) == [h |-> w.h, roots |-> st.roots, err |-> w.err]
        more(w) == [h |-> w.h, roots |-> IF w.err = "" THEN Append(st.roots, w.r) ELSE st.roots, err |-> w.err]
    IN CASE o.op = "put" -> same(Put(lit.h, r, o.key, lit.r, force))
         [] o.op = "del" -> same(Remove(h, r, o.key, force))
         [] o.op = "popd" -> same(IF Denied(h, r, force) \/ FrozenKeys(h, r, force) \/ Has(h[r].items, o.key) THEN Remove(h, r, o.key, force) ELSE Fine(h, r))
         [] o.op = "popitem" -> same(IF Denied(h, r, force) \/ FrozenKeys(h, r, force) \/ h[r].items = <<>> THEN Remove(h, r, "?", force)
                                     ELSE Remove(h, r, h[r].items[Len(h[r].items)][1], force))
         [] o.op = "clear" -> same(Clear(h, r, force))
         [] o.op = "update" -> same(Update(lit.h, r, lit.h[lit.r].items, OptB(o.nested, h[r].f.nested), force))
         [] o.op = "ior" -> same(Update(lit.h, r, lit.h[lit.r].items, FALSE, FALSE))
         [] o.op = "setdefault" -> same(IF Has(h[r].items, o.key) THEN Fine(h, r) ELSE Put(lit.h, r, o.key, lit.r, FALSE))
         [] o.op = "reset" -> same(Reset(h, r, force))
         [] o.op = "checkpoint" -> same(Checkpoint(h, r, force))
         [] o.op = "copy" -> more(Copy(h, r, o.mode, o.nested, o.rmode))
         [] o.op = "copy1" -> more(CopyVal(h, r))
         [] o.op = "deepcopy" -> more(DeepCopy(h, r))
         [] o.op = "copydict" -> more(CopyDict(h, r, o.mode, YN(o.nested)))
         [] o.op = "todict" -> more(ToDict(h, r, YN(o.nested)))
         [] o.op = "reload" -> more(Reload(h, r))
         [] o.op = "loadupdate" -> same(LoadUpdate(h, r, st.roots[o.y]))
         [] o.op = "merge" -> more(Merge(lit.h, <<r, lit.r>>, o.todict, o.mode, YN(o.nested), o.same))
         [] o.op = "merge2" -> more(Merge(lit.h, <<r, lit.r, st.roots[o.y]>>, o.todict, o.mode, YN(o.nested), o.same))
         [] o.op = "new" -> more(Init(h, r, o.args, 0))
         [] o.op = "newlit" -> more(LET w == Lit(lit.h, o.rlit) IN Init(w.h, lit.r, o.args, IF w.r > 0 THEN w.r ELSE 0))
         [] o.op = "touch" -> (* a value changed in place, below the root, along existing keys *)
              LET RECURSIVE Walk(_, _)
                  Walk(n, j) == IF j = Len(o.path) THEN n ELSE Walk(Get(h[n].items, o.path[j]), j + 1)
                  n == Walk(r, 1)
              IN same(Fine([h EXCEPT ![n].items = PutItem(@, o.path[Len(o.path)], -9)], r))
=============================================================================
