------------------------------ MODULE StatsMC ------------------------------
(* Metrics are added to a selection one at a time and the table is asked for   *)
(* after each.  A metric says the same whatever else is selected, tags only    *)
(* leave metrics out, and nothing is said twice.                               *)
EXTENDS Stats, Rep
CONSTANTS Most, Kinds
VARIABLES o, how, picked, tab
vars == <<o, how, picked, tab>>
T(s) == V("v", s)
B(x) == V("b", IF x THEN "True" ELSE "False")
Pre(p, k, v) == [p |-> p, k |-> k, v |-> v]
Fn(names, out) == [kind |-> "func", names |-> names, req |-> <<>>, var |-> TRUE, out |-> out, path |-> <<>>, dotted |-> FALSE]
El(a, form, args) == [attr |-> a, form |-> form, args |-> args, kw |-> <<>>]
Path(p) == [kind |-> "path", names |-> <<>>, req |-> <<>>, var |-> FALSE, out |-> "scalar", path |-> p, dotted |-> FALSE]
M(n, c, it) == [name |-> n, inline |-> TRUE, calc |-> c, items |-> it]
Tags(s) == [V("l", "") EXCEPT !.ks = s]
Menu == <<M("m1", Path(<<El("node", "str", <<>>), El("val", "str", <<>>)>>), <<It("tags", Tags(<<"t1">>))>>),
          M("m2", Path(<<El("node", "t2", <<"1">>), El("meth", "str", <<>>)>>), <<It("tags", Tags(<<"t1", "t2">>)), It("c", [V("rep", "") EXCEPT !.s = "p"])>>),
          M("m3", Path(<<El("delta", "t1", <<>>)>>), <<It("tags", Tags(<<"t2">>))>>),
          M("m4", Path(<<El("delta", "t1", <<>>)>>), <<Pre("pass_", "group_by", B(TRUE))>>),
          M("m5", Fn(<<"beta", "a", "group_by">>, "series"), <<Pre("resolve_", "beta", B(TRUE)), It("tags", Tags(<<"t1">>))>>),
          M("m6", Fn(<<"beta">>, "dict"), <<Pre("resolve_", "beta", B(TRUE)), It("a", [V("fn", "") EXCEPT !.ks = <<"p">>]), Pre("check_", "flag", B(TRUE))>>),
          M("m7", Path(<<El("zeta", "str", <<>>)>>), <<Pre("check_", "is_not_grouped", B(TRUE)), It("tags", Tags(<<"t3">>))>>),
          M("m8", Fn(<<"gamma", "freq">>, "nums"), <<Pre("resolve_", "gamma", B(TRUE)), It("freq", T("2D")), It("apply_to_timedelta", B(TRUE))>>),
          M("m9", Fn(<<"metric_name", "column", "agg_func">>, "series"), <<It("agg_func", None), It("title", [V("sub", "") EXCEPT !.d = <<[p |-> "key", k |-> "metric_name"], [p |-> "lit", k |-> "!"]>>])>>)>>
Objs == <<[cols |-> <<"a1", "b1", "c1">>, ndim |-> 2, grp |-> <<"g1", "g1", "g2">>, freq |-> "1D"], [cols |-> <<"a1", "b1">>, ndim |-> 2, grp |-> <<>>, freq |-> "None"], [cols |-> <<"a1">>, ndim |-> 1, grp |-> <<>>, freq |-> "1D"]>>
Id(t) == [op |-> "id", id |-> t, a |-> <<>>]
Not(a) == [op |-> "not", id |-> "", a |-> <<a>>]
And(a, b) == [op |-> "and", id |-> "", a |-> <<a, b>>]
NoFilter == [p |-> "", k |-> "flag", f |-> "a", warn |-> T("W!"), inv |-> None]
Asks(h, ms) == [own |-> Menu, all |-> FALSE, metrics |-> ms, form |-> 0, by |-> h.by, tags |-> h.tags, column |-> h.column, agg |-> h.agg, silence |-> "none", tmap |-> <<>>,
                settings |-> <<It("p", T("u"))>> \o h.set, msets |-> <<>>, filters |-> <<NoFilter>>]
Hows(ob) == {[by |-> by, tags |-> tags, column |-> None, agg |-> agg, set |-> set] :
             by \in (IF ob.ndim = 1 THEN {<<"own">>} ELSE IF ob.grp = <<>> THEN {<<"own">>, <<"by", "h1", "h2">>} ELSE {<<"own">>, <<"no">>}),
             tags \in {<<>>, <<And(Id("t1"), Not(Id("t2")))>>, <<Id("t3"), Id("t2")>>}, agg \in {None, V("f", "joinA")}, set \in {<<>>, <<It("freq", T("2D"))>>, <<It("a", T("yes"))>>}}
Init == /\ o \in {Objs[i] : i \in Kinds} /\ how \in Hows(o) /\ picked = <<>> /\ tab = Nothing("", <<>>)
Add == /\ Len(picked) < Most
       /\ \E m \in 1..Len(Menu) : /\ \A i \in DOMAIN picked : picked[i] # m
                                  /\ picked' = Append(picked, m)
       /\ LET c == TLCEval(Asks(how, [i \in DOMAIN picked' |-> Menu[picked'[i]]])) IN tab' = TLCEval(Table(o, c)) /\ (IF Len(picked') = Most THEN Emit([o |-> o, c |-> c, want |-> tab']) ELSE TRUE)
       /\ UNCHANGED <<o, how>>
Next == Add
Spec == Init /\ [][Next]_vars
Alone(m) == TLCEval(Table(o, Asks(how, <<Menu[m]>>)))
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
(* whatever else is selected, and in whatever order *)
Independent == picked # <<>> /\ tab.e = "" => tab.rows = Cat(TLCEval([i \in DOMAIN picked |-> Alone(picked[i]).rows]))
IsPart == picked # <<>> /\ tab.e = "" => LET w == TLCEval(Table(o, Asks([how EXCEPT !.tags = <<>>], [i \in DOMAIN picked |-> Menu[picked[i]]]))) IN
              w.e = "" => tab.rows = SelectSeq(w.rows, LAMBDA r : \E i \in DOMAIN tab.rows : tab.rows[i] = r)
Labelled == tab.kind = "frame" => \A i \in DOMAIN tab.rows : Len(tab.rows[i].v) = Len(Units(o, how.by))
One1 == tab.kind = "series" => \A i \in DOMAIN tab.rows : Len(tab.rows[i].v) = 1
=============================================================================
