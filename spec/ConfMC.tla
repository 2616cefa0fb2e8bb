-------------------------------- MODULE ConfMC ------------------------------
(* All short programs over one configuration: every program with its outcome   *)
(* is emitted for replay, and the guarantees are checked on the model.         *)
EXTENDS Conf, Rep
CONSTANTS Depth, Modes, Flags
VARIABLES st, prev, prog, outs
vars == <<st, prev, prog, outs>>
I(v) == [k |-> "int", v |-> v, items |-> <<>>]
L(v) == [k |-> "list", v |-> 0, items |-> <<<<"0", I(v)>>>>]
D(kind, items) == [k |-> kind, v |-> 0, items |-> items]
Base == D("dict", <<<<"a", I(1)>>, <<"b", L(2)>>, <<"c", D("dict", <<<<"a", I(3)>>, <<"b", L(4)>>>>)>>, <<"d", D("atomic", <<<<"a", I(5)>>>>)>>>>)
Lits == {D("dict", <<<<"a", I(6)>>, <<"e", I(7)>>>>), D("dict", <<<<"c", D("dict", <<<<"a", I(6)>>, <<"c", L(7)>>>>)>>, <<"d", D("dict", <<<<"b", I(8)>>>>)>>>>),
         D("atomic", <<<<"c", D("atomic", <<<<"c", I(6)>>>>)>>>>), D("dict", <<>>)}
NoArgs == [frozen |-> "none", ro |-> "none", nested |-> "none", conv |-> "none", attrs |-> "none", cm |-> "none", cn |-> "none", rm |-> "none", rn |-> "none"]
Args == {[NoArgs EXCEPT !.frozen = IF "frozen" \in f THEN "yes" ELSE "none", !.ro = IF "ro" \in f THEN "yes" ELSE "none",
                        !.nested = IF "nested" \in f THEN "yes" ELSE "none", !.conv = IF "conv" \in f THEN "yes" ELSE "none",
                        !.attrs = IF "attrs" \in f THEN "yes" ELSE "none", !.cm = m] : f \in Flags, m \in Modes}
BOOLS == {TRUE, FALSE}
Ops(x) ==
         {[op |-> "put", x |-> x, key |-> k, lit |-> I(9), force |-> f] : k \in {"a", "e"}, f \in BOOLS}
    \cup {[op |-> p, x |-> x, key |-> k, force |-> f] : p \in {"del", "popd"}, k \in {"b", "e"}, f \in BOOLS}
    \cup {[op |-> p, x |-> x, force |-> f] : p \in {"popitem", "clear", "reset", "checkpoint"}, f \in BOOLS}
    \cup {[op |-> "update", x |-> x, lit |-> l, nested |-> n, force |-> f] : l \in Lits, n \in {"none", "no", "yes"}, f \in BOOLS}
    \cup {[op |-> "ior", x |-> x, lit |-> l] : l \in Lits}
    \cup {[op |-> "setdefault", x |-> x, key |-> k, lit |-> I(9)] : k \in {"a", "e"}}
    \cup {[op |-> "copy", x |-> x, mode |-> m, nested |-> n, rmode |-> q] : m \in {"none", "shallow", "hybrid", "deep"}, n \in {"none", "no", "yes"}, q \in {"none", "shallow", "deep"}}
    \cup {[op |-> p, x |-> x] : p \in {"copy1", "deepcopy", "reload"}}
    \cup {[op |-> "copydict", x |-> x, mode |-> m, nested |-> n] : m \in {"shallow", "hybrid", "deep"}, n \in {"no", "yes"}}
    \cup {[op |-> "todict", x |-> x, nested |-> n] : n \in {"no", "yes"}}
    \cup {[op |-> "merge", x |-> x, lit |-> l, todict |-> t, mode |-> m, nested |-> n, same |-> s] :
              l \in Lits, t \in BOOLS, m \in {"shallow", "hybrid", "deep"}, n \in {"no", "yes"}, s \in BOOLS}
    \cup {[op |-> "new", x |-> x, args |-> [NoArgs EXCEPT !.ro = r, !.cm = m]] : r \in {"none", "no", "yes"}, m \in {"none", "shallow", "deep"}}
Touches(h, r, x) == {[op |-> "touch", x |-> x, path |-> p] : p \in {q \in {<<"b", "0">>, <<"c", "a">>, <<"c", "b", "0">>, <<"d", "a">>} :
    LET ok1 == Has(h[r].items, q[1]) /\ Get(h[r].items, q[1]) > 0
        n1 == Get(h[r].items, q[1])
        good(n) == h[n].k # "config"
    IN ok1 /\ Has(h[n1].items, q[2]) /\ IF Len(q) = 2 THEN good(n1) ELSE LET n2 == Get(h[n1].items, q[2]) IN n2 > 0 /\ good(n2) /\ Has(h[n2].items, q[3])}}
Init0 == \E a \in Args :
           LET l == Lit(<<>>, Base) w == Init(l.h, l.r, a, 0)
           IN /\ w.err = ""
              /\ st = TLCEval([h |-> w.h, roots |-> <<l.r, w.r>>, err |-> ""])
              /\ prev = st /\ prog = <<a>> /\ outs = <<>>
(* after a copying operation either the copy or the original is changed; a result that is no config takes no config operations *)
Cands == IF Len(prog) = 1 THEN {o \in Ops(2) : TRUE} \cup Touches(st.h, st.roots[2], 2) \cup Touches(st.h, st.roots[1], 1)
         ELSE LET n == Len(st.roots) IN
              {o \in Ops(2) : o.op \in {"put", "reset", "checkpoint", "update", "clear"}} \cup Touches(st.h, st.roots[2], 2)
              \cup (IF n > 2 THEN Touches(st.h, st.roots[n], n) \cup (IF st.h[st.roots[n]].k = "config" THEN {o \in Ops(n) : o.op \in {"put", "reset", "copy1"}} ELSE {}) ELSE {})
Next0 == /\ Len(prog) <= Depth
         /\ \E o \in Cands : LET s == TLCEval(Step(st, o)) IN
              /\ st' = s /\ prev' = st /\ prog' = Append(prog, o)
              /\ outs' = Append(outs, [err |-> s.err, c |-> Canon(s.h, s.roots)])
              /\ (Len(prog') = Depth + 1 => Emit([prog |-> prog', outs |-> outs']))
Spec == Init0 /\ [][Next0]_vars
Inv ==
    Len(prog) > 1 =>
    LET o == prog[Len(prog)] r == prev.roots[o.x] force == "force" \in DOMAIN o /\ o.force
        cfg == prev.h[r].k = "config" n == st.roots[Len(st.roots)] new == Len(st.roots) > Len(prev.roots)
        mutator == o.op \in {"put", "del", "popd", "popitem", "clear", "update", "ior", "setdefault", "reset", "checkpoint"}
    IN /\ (cfg /\ prev.h[r].f.ro /\ mutator /\ ~force => Contents(st.h, r) = Contents(prev.h, r) /\ (o.op \in {"setdefault", "popd"} \/ st.err # ""))
       /\ (cfg /\ prev.h[r].f.frozen /\ mutator /\ o.op # "reset" /\ ~force => {it[1] : it \in Range(st.h[r].items)} = {it[1] : it \in Range(prev.h[r].items)})
       /\ (st.err # "" /\ o.op \notin {"update", "ior"} => Contents(st.h, r) = Contents(prev.h, r))
       /\ (o.op = "reset" /\ st.err = "" => Contents(st.h, r) = Contents(prev.h, prev.h[r].reset) /\ Contents(st.h, st.h[r].reset) = Contents(prev.h, prev.h[r].reset))
       /\ (o.op = "checkpoint" /\ st.err = "" => Contents(st.h, st.h[r].reset) = Contents(prev.h, r) /\ Contents(st.h, r) = Contents(prev.h, r))
       /\ (new => Contents(st.h, r) = Contents(prev.h, r) /\ Contents(st.h, st.roots[1]) = Contents(prev.h, st.roots[1]))
       /\ (new /\ o.op \in {"copy", "copy1", "deepcopy", "copydict"} => Contents(st.h, n) = Contents(prev.h, r))
       /\ (new /\ o.op = "reload" /\ ~prev.h[r].f.conv => Contents(st.h, n) = Contents(prev.h, r) /\ st.h[n].f = prev.h[r].f
                                                           /\ Contents(st.h, st.h[n].reset) = Contents(prev.h, prev.h[r].reset))
       /\ (new /\ o.op \in {"deepcopy", "reload"} => Apart(st.h, n, r))
       /\ (new /\ o.op = "copy" /\ o.mode = "deep" /\ o.rmode \in {"none", "deep"} => Apart(st.h, n, r))
       /\ (new /\ o.op = "copydict" /\ o.mode = "deep" => Apart(st.h, n, r))
       (* a nested copy shares no dictionary, a hybrid one no value of a copied dictionary either *)
       /\ (new /\ o.op \in {"copydict", "merge"} /\ o.nested = "yes" => \A x \in Reach(st.h, {n}, {}) \cap Reach(st.h, {r}, {}) : st.h[x].k = "list")
       /\ (new /\ o.op = "copydict" /\ o.nested = "yes" /\ o.mode = "hybrid" => Apart(st.h, n, r))
       /\ (st.err = "" /\ o.op \in {"put", "ior"} => \A it \in Range(st.h[r].items) : TRUE)
=============================================================================
