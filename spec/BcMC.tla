-------------------------------- MODULE BcMC --------------------------------
(* Every combination of inputs from a catalogue and of label options.          *)
EXTENDS Bc, Rep
CONSTANTS MaxN, Wide
VARIABLES args, ids, o, done
vars == <<args, ids, o, done>>
L(n, v) == [n |-> n, v |-> v]
Rows(k) == CASE k = "p2" -> Plain(2) [] k = "p1" -> Plain(1) [] k = "x1" -> <<L("", <<"x">>)>> [] k = "x2" -> <<L("", <<"x", "y">>)>>
             [] k = "n2" -> <<L("t", <<"x", "y">>)>> [] k = "z2" -> <<L("", <<"y", "z">>)>> [] k = "m2" -> <<L("t", <<"x", "y">>), L("", <<"u", "u">>)>>
             [] k = "p3" -> Plain(3) [] k = "x3" -> <<L("", <<"x", "y", "z">>)>> [] k = "u2" -> <<L("", <<"u", "u">>)>>
Val(id, r, c) == ToString(100 * id + 10 * r + c)
Mk(id, k, r, c, ix, cx) == [k |-> k, r |-> r, c |-> c, v |-> [x \in 1..(r * c) |-> Val(id, ((x - 1) \div c) + 1, ((x - 1) % c) + 1)], ix |-> ix, cx |-> cx]
Spec1 == << <<"s", 1, 1, "", "">>, <<"1", 2, 1, "", "">>, <<"1", 1, 1, "", "">>, <<"1", 3, 1, "", "">>, <<"2", 2, 2, "", "">>, <<"2", 1, 2, "", "">>, <<"2", 2, 1, "", "">>,
            <<"sr", 2, 1, "p2", "p1">>, <<"sr", 2, 1, "x2", "x1">>, <<"sr", 2, 1, "n2", "p1">>, <<"sr", 1, 1, "x1", "p1">>, <<"sr", 1, 1, "p1", "x1">>,
            <<"fr", 2, 2, "p2", "p2">>, <<"fr", 2, 2, "x2", "x2">>, <<"fr", 2, 2, "x2", "n2">>, <<"fr", 2, 2, "n2", "m2">>, <<"fr", 2, 1, "x2", "x1">>,
            <<"fr", 1, 2, "p1", "x2">>, <<"fr", 1, 2, "x1", "z2">>, <<"fr", 2, 2, "x2", "u2">> >>
Spec2 == << <<"fr", 3, 2, "x3", "x2">>, <<"fr", 2, 3, "x2", "x3">>, <<"fr", 2, 3, "m2", "p3">>, <<"sr", 3, 1, "x3", "x1">>, <<"2", 3, 2, "", "">>, <<"fr", 2, 1, "z2", "p1">>, <<"sr", 2, 1, "m2", "p1">> >>
Cat == IF Wide THEN Spec1 \o Spec2 ELSE Spec1
Get(id, n) == LET s == Cat[id] IN Mk(10 * id + n, s[1], s[2], s[3], IF s[4] = "" THEN <<>> ELSE Rows(s[4]), IF s[5] = "" THEN <<>> ELSE Rows(s[5]))
M(m) == [m |-> m, at |-> 1, ix |-> <<>>]
At(i) == [m |-> "at", at |-> i, ix |-> <<>>]
Given(k) == [m |-> "given", at |-> 1, ix |-> Rows(k)]
Base == [im |-> M("stack"), cm |-> M("stack"), dup |-> TRUE, keep |-> "last", red |-> TRUE, ign |-> TRUE, to |-> <<>>, pd |-> "", ai |-> FALSE, ac |-> TRUE, fr |-> FALSE]
Opts == {[Base EXCEPT !.im = M(a), !.cm = M(b)] : a \in {"stack", "strict", "keep", "reset"}, b \in {"stack", "strict", "keep", "reset"}}
        \cup {[Base EXCEPT !.dup = FALSE, !.red = b, !.ign = g] : b \in {TRUE, FALSE}, g \in {TRUE, FALSE}}
        \cup {[Base EXCEPT !.keep = "first", !.red = FALSE, !.ai = TRUE], [Base EXCEPT !.pd = "y"], [Base EXCEPT !.pd = "n"], [Base EXCEPT !.ac = FALSE]}
        \cup {[Base EXCEPT !.im = At(1), !.cm = At(1)], [Base EXCEPT !.im = Given("z2"), !.cm = Given("x2")], [Base EXCEPT !.im = M("strict"), !.cm = Given("x1")]}
        \cup {[Base EXCEPT !.to = t] : t \in {<<2>>, <<2, 2>>, <<3>>, <<2, 3>>}}
Init == args = <<>> /\ ids = <<>> /\ o = Base /\ done = FALSE
Add == Len(ids) < MaxN /\ ~done /\ \E i \in DOMAIN Cat : ids' = Append(ids, i) /\ args' = Append(args, TLCEval(Get(i, Len(ids) + 1))) /\ UNCHANGED <<o, done>>
(* a result that is to be pandas needs at least one row *)
Usable(p) == ~(p.pd = "y" /\ \A i \in DOMAIN args : args[i].k = "s")
Go == ids # <<>> /\ ~done /\ \E p \in Opts : Usable(p) /\ o' = p /\ done' = TRUE /\ UNCHANGED <<args, ids>>
      /\ Emit([args |-> args, o |-> p, res |-> Broadcast(args, p)])
Next == Add \/ Go
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Out == TLCEval(Broadcast(args, o))
Good == done => LET r == Out IN r.ok =>
    (* one shape, the right number of labels, and every cell comes from its own input *)
    /\ \A i \in DOMAIN args : LET x == r.res[i] IN
        /\ x.r = r.res[1].r /\ x.c = r.res[1].c /\ Len(x.v) = x.r * x.c /\ Rng(x.v) \subseteq Rng(args[i].v)
        /\ (o.to = <<>> => Rng(x.v) = Rng(args[i].v))
        /\ (x.k # "np" => ILen(x.ix) = x.r /\ ILen(x.cx) = x.c)
        /\ (x.k # "np" /\ o.im.m # "keep" => x.ix = r.res[1].ix)
    (* the lazy form selects the same elements *)
    /\ \A i \in DOMAIN args : (args[i].k # "sr" /\ args[i].k # "fr") => \A y \in 1..r.res[i].r, x \in 1..r.res[i].c :
        Flex(args[i].v, Nd(args[i]), args[i].r, args[i].c, y, x, r.two) = r.res[i].v[(y - 1) * r.res[i].c + x]
(* broadcasting once more changes nothing *)
Raw(x) == [k |-> x.k, r |-> x.r, c |-> x.c, v |-> x.v, ix |-> x.ix, cx |-> x.cx]
Again == done => LET r == Out IN (r.ok /\ r.res[1].k # "np" /\ o.im.m \in {"stack", "strict"} /\ o.cm.m = "stack" /\ o.ign) =>
    LET q == Broadcast([i \in DOMAIN r.res |-> Raw(r.res[i])], [o EXCEPT !.to = <<>>]) IN q.ok /\ q.res = r.res
(* the shape does not depend on the order of the inputs; strict means equal labels for all *)
Strict == done => LET r == Out IN (r.ok /\ o.im.m = "strict" /\ o.pd # "n" /\ \E i \in DOMAIN args : Pd(args[i])) =>
    \A i \in DOMAIN args : Pd(args[i]) => args[i].ix = r.res[1].ix \/ IsPlain(args[i].ix)
Sym == done /\ Len(args) = 2 /\ o.to = <<>> => LET q == Broadcast(<<args[2], args[1]>>, [o EXCEPT !.im = M("reset"), !.cm = M("reset")]) p == Broadcast(args, [o EXCEPT !.im = M("reset"), !.cm = M("reset")]) IN
    p.ok = q.ok /\ (p.ok => p.res[1] = q.res[2] /\ p.res[2] = q.res[1])
=============================================================================
