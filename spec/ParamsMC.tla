------------------------------ MODULE ParamsMC ------------------------------
(* An indicator works through its distinct combinations one at a time, each on *)
(* a copy of its own of the in-place output, and the table is put together     *)
(* from what they left; selections follow.                                     *)
EXTENDS Params, Rep
CONSTANTS MaxVals, Values, Sizes, Full
VARIABLES g, uniq, cs, todo, raw, user, phase, tab, view, path, R0
vars == <<g, uniq, cs, todo, raw, user, phase, tab, view, path, R0>>
Lists == UNION {[1..n -> Values] : n \in 1..MaxVals}
Par(n, l, hide) == [n |-> n, vals |-> [x \in DOMAIN l |-> [l |-> ToString(l[x]), k |-> "s", w |-> <<l[x]>>]], hide |-> hide, dflt |-> FALSE, pc |-> FALSE]
Frame(c, s) == [k |-> "fr", r |-> 2, c |-> c, v |-> [x \in 1..(2 * c) |-> ((x * s) % 5) + 1], ix |-> Plain(2), cx |-> <<[n |-> "k", v |-> SubSeq(<<"b", "a", "c">>, 1, c)]>>]
Conf(pl, ql, two, prod, percol, c, ino, hide) ==
    [args |-> <<Frame(c, 2), Frame(c, 3)>>, ino |-> IF ino = "no" THEN <<>> ELSE <<[given |-> ino = "given", a |-> Frame(c, 7)]>>,
     ps |-> <<Par("p", pl, hide = "p")>> \o (IF two THEN <<Par("q", ql, hide = "q")>> ELSE <<>>), pre |-> "my_", prod |-> prod, percol |-> percol, hd |-> TRUE,
     o |-> [dup |-> TRUE, keep |-> "last", red |-> TRUE], cached |-> FALSE, passcol |-> FALSE, shape |-> FALSE, flex |-> FALSE, arg |-> 0]
Init == /\ \E pl \in Lists, prod \in BOOLEAN, percol \in BOOLEAN, c \in Sizes, ino \in {"no", "given", "new"} :
             \E two \in (IF Full THEN BOOLEAN ELSE {Len(pl) < 3}) : \E ql \in (IF two THEN {l \in Lists : IF Full THEN Len(l) + Len(pl) <= 4 ELSE Len(l) < 3} ELSE {<<1>>}), hide \in (IF two /\ ino # "new" THEN {"", "p"} ELSE {""}) :
             g = Conf(pl, ql, two, prod, percol, c, ino, hide)
        /\ uniq \in BOOLEAN /\ cs = <<>> /\ todo = <<>> /\ raw = <<>> /\ phase = "start" /\ tab = 0 /\ view = 0 /\ path = <<>> /\ R0 = 0
        /\ user = (IF g.ino = <<>> THEN <<>> ELSE g.ino[1].a.v)
B == Inputs(g)
Cols == g.args[1].c
Distinct(s) == LET keep == SelectSeq([x \in DOMAIN s |-> x], LAMBDA x : \A y \in 1..(x - 1) : s[y] # s[x]) IN [u \in DOMAIN keep |-> s[keep[u]]]
Refuse == phase = "start" /\ ~Fits(g, Cols) /\ phase' = "refused" /\ Emit([g |-> g, uniq |-> uniq, refused |-> TRUE]) /\ UNCHANGED <<g, uniq, cs, todo, raw, user, tab, view, path, R0>>
Vals(s) == [x \in DOMAIN s |-> [p \in DOMAIN g.ps |-> Val(g, s[x], p).w[1]]]
Begin == /\ phase = "start" /\ Fits(g, Cols) /\ phase' = "run" /\ cs' = TLCEval(Combos(g, Cols))
         (* repeated combinations are told by their values; columns keep theirs *)
         /\ todo' = (LET v == TLCEval(Vals(cs')) IN IF uniq /\ ~g.percol THEN SelectSeq([x \in DOMAIN cs' |-> x], LAMBDA x : \A y \in 1..(x - 1) : v[y] # v[x]) ELSE [x \in DOMAIN cs' |-> x])
         /\ UNCHANGED <<g, uniq, raw, user, tab, view, path, R0>>
(* one combination on its copy *)
Exec == /\ phase = "run" /\ Len(raw) < Len(todo)
        /\ LET x == todo[Len(raw) + 1]
               js == IF g.percol THEN <<x>> ELSE [j \in 1..Cols |-> j]
               copy == user
               Left(j) == IF g.ino = <<>> THEN <<>> ELSE
                          TLCEval([i \in 1..2 |-> (IF g.ino[1].given THEN copy[(i - 1) * Cols + j] ELSE 0) + W(g, cs[x], 1, i, j, Cols) + Cell(B.res[1], i, j)])
           IN  raw' = Append(raw, [x |-> x, ino |-> TLCEval([n \in DOMAIN js |-> Left(js[n])]), out |-> TLCEval([n \in DOMAIN js |-> TLCEval(Block(g, B, cs[x], js[n]).out)])])
        /\ UNCHANGED <<g, uniq, cs, todo, user, phase, tab, view, path, R0>>
Find(x) == IF g.percol THEN x ELSE CHOOSE n \in DOMAIN todo : Vals(<<cs[todo[n]]>>) = Vals(<<cs[x]>>)
Assemble ==
    /\ phase = "run" /\ Len(raw) = Len(todo) /\ phase' = "done"
    /\ LET src == Source(g, cs, Cols)
           Blk(q) == LET t == raw[Find(src[q][1])] n == IF g.percol THEN 1 ELSE src[q][2] IN [ino |-> t.ino[n], out |-> t.out[n]]
       IN  tab' = TLCEval([q \in DOMAIN src |-> TLCEval(Blk(q))])
    /\ R0' = TLCEval(Run(g, cs))
    /\ view' = TLCEval(View(R0'))
    /\ Emit([g |-> g, uniq |-> uniq, refused |-> FALSE, path |-> <<>>, show |-> Show(R0', view')])
    /\ UNCHANGED <<g, uniq, cs, todo, raw, user, path>>
(* selections by the value of a parameter, by all its values, by pairs, by place *)
Select ==
    /\ phase = "done" /\ Len(path) < (IF Full /\ Len(R0.src) <= 4 THEN 2 ELSE 1) /\ uniq /\ Len(view.pos) > 1 /\ (Full \/ g.ino # <<>> => g.ino # <<>> /\ g.ino[1].given)
    /\ \E s \in {[how |-> "param", ps |-> <<p>>, keys |-> <<<<R0.maps[p][view.pos[q]]>>>>, single |-> b] : p \in DOMAIN g.ps, q \in DOMAIN view.pos, b \in BOOLEAN}
            \cup {[how |-> "param", ps |-> <<1>>, keys |-> <<<<R0.maps[1][view.pos[Len(view.pos)]]>>, <<R0.maps[1][view.pos[1]]>>>>, single |-> FALSE]}
            \cup (IF Len(g.ps) = 2 THEN {[how |-> "param", ps |-> <<1, 2>>, keys |-> <<<<R0.maps[1][view.pos[q]], R0.maps[2][view.pos[q]]>>>>, single |-> b] : q \in DOMAIN view.pos, b \in BOOLEAN} ELSE {})
            \cup (IF path = <<>> THEN {[how |-> "place", ps |-> <<>>, keys |-> <<>>, single |-> FALSE]} ELSE {}) :
         /\ path' = Append(path, s)
         /\ view' = IF s.how = "param" THEN TLCEval(ByParam(g, R0, view, s.ps, s.keys, s.single)) ELSE TLCEval(ByPlace(view, [q \in 1..(Len(view.pos) - 1) |-> Len(view.pos) + 1 - q], <<2>>))
         /\ Emit([g |-> g, uniq |-> uniq, refused |-> FALSE, path |-> path', show |-> Show(R0, view')])
    /\ UNCHANGED <<g, uniq, cs, todo, raw, user, phase, tab, R0>>
Spec == Init /\ [][Refuse \/ Begin \/ Exec \/ Assemble \/ Select]_vars
----------------------------------------------------------------------------
(* repeated combinations or not, each column is what its combination gives *)
Same == phase = "done" => /\ Len(tab) = Len(R0.src)
                          /\ \A q \in DOMAIN tab : tab[q].out = [u \in 1..2 |-> R0.out[u][q]] /\ (g.ino # <<>> => tab[q].ino = R0.ino[1][q])
Untouched == g.ino # <<>> => user = g.ino[1].a.v
(* columns depend on their own combination and input column only *)
Local == phase = "done" => \A q, z \in DOMAIN tab : R0.src[q][2] = R0.src[z][2] /\ (\A p \in DOMAIN g.ps : R0.maps[p][q] = R0.maps[p][z]) => tab[q] = tab[z]
(* selecting by value keeps all and only the columns of that value *)
Picked == phase = "done" /\ path # <<>> /\ path[Len(path)].how = "param" =>
            LET s == path[Len(path)] IN \A q \in DOMAIN view.pos : \E u \in DOMAIN s.keys : \A n \in DOMAIN s.ps : R0.maps[s.ps[n]][view.pos[q]] = s.keys[u][n]
Whole == phase = "done" /\ Len(path) = 1 /\ path[1].how = "param" =>
            \A q \in DOMAIN R0.src : (\E u \in DOMAIN path[1].keys : \A n \in DOMAIN path[1].ps : R0.maps[path[1].ps[n]][q] = path[1].keys[u][n]) => q \in Rng(view.pos)
Count == phase = "done" /\ ~g.percol => Len(cs) = IF g.prod /\ Len(g.ps) = 2 THEN Len(g.ps[1].vals) * Len(g.ps[2].vals) ELSE MaxOf([p \in DOMAIN g.ps |-> Len(g.ps[p].vals)])
Pairs == phase = "done" /\ Len(cs) <= 4 =>
            LET n == Len(cs) P(h) == Pick(n, 2, h) IN
            /\ Len(P("product")) = n * n /\ Len(P("permutations")) = n * (n - 1) /\ 2 * Len(P("combinations")) = n * (n - 1)
            /\ \A i, j \in 1..n : i < j => \E x \in DOMAIN P("combinations") : P("combinations")[x] = <<i, j>>
=============================================================================
