-------------------------------- MODULE Stats --------------------------------
(* Tables of statistics.  An object has units (columns or groups), a frequency  *)
(* and attributes; a call asks for metrics, each a calculation with settings.   *)
(* Settings come from three places (call, metric, and the call's settings for   *)
(* that metric) and may be templates.  Values are terms: texts that say which   *)
(* function received what.  A setting is [p, k, v]: prefix, name, value; a      *)
(* value is [t, s, ks, d] with t one of                                         *)
(*   v text, b None or truth value, i number, f function, o object, l list (ks),*)
(*   d nested settings (d), and the templates rep (key s), sub (parts d of p =  *)
(*   "lit" or "key" and name k), eval (keys ks added up), fn (called with ks).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
V(t, s) == [t |-> t, s |-> s, ks |-> <<>>, d |-> <<>>]
It(k, v) == [p |-> "", k |-> k, v |-> v]
Rng(s) == {s[i] : i \in DOMAIN s}
Full(it) == it.p \o it.k
Pos(m, k) == LET S == {i \in DOMAIN m : Full(m[i]) = k} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Has(m, k) == Pos(m, k) > 0
Get(m, k, d) == IF Has(m, k) THEN m[Pos(m, k)].v ELSE d
None == V("b", "None")
Yes(v) == v.s # "None" /\ v.s # "False"
Without(m, ks) == SelectSeq(m, LAMBDA it : Full(it) \notin ks)
RECURSIVE Merged(_, _)
(* later settings win; nested settings are merged *)
Merged(a, b) ==
    IF b = <<>> THEN a
    ELSE LET it == b[1] p == Pos(a, Full(it))
             c == IF p = 0 THEN Append(a, it)
                  ELSE [a EXCEPT ![p].v = IF @.t = "d" /\ it.v.t = "d" THEN [@ EXCEPT !.d = Merged(@, it.v.d)] ELSE it.v]
         IN  Merged(TLCEval(c), Tail(b))
RECURSIVE Joined(_, _)
Joined(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Joined(Tail(ss), sep)
(* ---------------------------------------------------------------- templates *)
Templates == {"rep", "sub", "eval", "fn"}
(* keys added up from the left: a missing name, or a template that cannot be added to a text *)
Evaluated(ks, m) ==
    LET bad == {i \in DOMAIN ks : ~Has(m, ks[i]) \/ (Len(ks) > 1 /\ Get(m, ks[i], None).t \in Templates)}
        first == CHOOSE i \in bad : \A j \in bad : i <= j
    IN  IF bad # {} THEN [e |-> IF Has(m, ks[first]) THEN "TypeError" ELSE "NameError", v |-> None]
        ELSE IF Len(ks) = 1 THEN [e |-> "", v |-> Get(m, ks[1], None)]
        ELSE [e |-> "", v |-> V("v", Joined([i \in DOMAIN ks |-> Get(m, ks[i], None).s], "+"))]
RECURSIVE Subst(_, _), SubstAll(_, _)
Subst(v, m) ==
    LET R(e, x) == [e |-> e, v |-> x] IN
    CASE v.t = "rep" -> IF Has(m, v.s) THEN R("", Get(m, v.s, None)) ELSE R("KeyError", v)
      [] v.t = "sub" -> IF \A i \in DOMAIN v.d : v.d[i].p = "lit" \/ Has(m, v.d[i].k)
                        THEN R("", V("v", Joined([i \in DOMAIN v.d |-> IF v.d[i].p = "lit" THEN v.d[i].k ELSE Get(m, v.d[i].k, None).s], ""))) ELSE R("KeyError", v)
      [] v.t = "eval" -> Evaluated(v.ks, m)
      [] v.t = "fn" -> IF \A i \in DOMAIN v.ks : Has(m, v.ks[i]) THEN R("", V("v", "fn(" \o Joined([i \in DOMAIN v.ks |-> Get(m, v.ks[i], None).s], ",") \o ")")) ELSE R("TypeError", v)
      [] v.t = "d" -> LET a == SubstAll(v.d, m) IN R(a.e, [v EXCEPT !.d = a.m])
      [] OTHER -> R("", v)
SubstAll(items, m) ==
    LET rs == TLCEval([i \in DOMAIN items |-> Subst(items[i].v, m)])
        bad == {i \in DOMAIN rs : rs[i].e # ""}
    IN  [e |-> IF bad = {} THEN "" ELSE rs[CHOOSE i \in bad : \A j \in bad : i <= j].e, m |-> [i \in DOMAIN items |-> [items[i] EXCEPT !.v = rs[i].v]]]
(* --------------------------------------------------------------------- tags *)
RECURSIVE Holds(_, _)
Holds(x, tags) == CASE x.op = "id" -> x.id \in tags [] x.op = "not" -> ~Holds(x.a[1], tags)
                    [] x.op = "and" -> \A i \in DOMAIN x.a : Holds(x.a[i], tags) [] OTHER -> \E i \in DOMAIN x.a : Holds(x.a[i], tags)
TagSet(v) == IF v.t = "l" THEN Rng(v.ks) ELSE {v.s}
(* ------------------------------------------------------------------- object *)
(* o: [cols, ndim, grp, freq]; by: <<"own">>, <<"no">> or <<"by", label of each column>> *)
Groups(o, by) == IF by[1] = "own" THEN o.grp ELSE IF by[1] = "no" THEN <<>> ELSE Tail(by)
Uniq(s) == LET f == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : \A j \in 1..(i - 1) : s[j] # s[i]) IN [i \in DOMAIN f |-> s[f[i]]]
Units(o, by) == IF Groups(o, by) = <<>> THEN o.cols ELSE Uniq(Groups(o, by))
ByText(by) == IF by[1] = "own" THEN "None" ELSE IF by[1] = "no" THEN "False" ELSE "[" \o Joined(Tail(by), ";") \o "]"
Self(f) == V("o", "S@" \o f)
(* what the object offers: kind, argument names, what comes out *)
Attr == [alpha |-> [k |-> "prop", n |-> <<>>, out |-> "text"], beta |-> [k |-> "get", n |-> <<"a", "group_by">>, out |-> "text"],
         gamma |-> [k |-> "meth", n |-> <<"x", "y", "b">>, out |-> "text"], delta |-> [k |-> "meth", n |-> <<"metric_name">>, out |-> "text"],
         child |-> [k |-> "prop", n |-> <<>>, out |-> "node"], node |-> [k |-> "get", n |-> <<"a", "group_by">>, out |-> "node"],
         zeta |-> [k |-> "meth", n |-> <<"b", "group_by">>, out |-> "series"]]
NodeAttr == [val |-> [k |-> "prop", n |-> <<>>, out |-> "text"], meth |-> [k |-> "meth", n |-> <<"c", "group_by", "d", "beta">>, out |-> "text"], rows |-> [k |-> "meth", n |-> <<"c">>, out |-> "series"]]
Names == <<"self", "a", "b", "c", "d", "p", "q", "x", "y", "group_by", "column", "metric_name", "agg_func", "silence_warnings", "to_timedelta", "freq", "alpha", "beta", "gamma", "delta", "wrap_kwargs">>
Term(head, names, m) == head \o "{" \o Joined([i \in DOMAIN names |-> names[i] \o "=" \o Get(m, names[i], V("v", "-")).s], ",") \o "}"
Bound(head, a, m) == Term(head, a.n, m)
(* positional arguments as settings; refused when given twice or too many *)
Positional(args, names) == [i \in DOMAIN args |-> It(names[i], V("v", args[i]))]
Call(head, a, args, m) ==
    IF Len(args) > Len(a.n) \/ \E i \in DOMAIN args : Has(m, a.n[i]) THEN [e |-> "TypeError", s |-> ""]
    ELSE IF \E i \in DOMAIN m : Full(m[i]) \notin Rng(a.n) THEN [e |-> "TypeError", s |-> ""]
    ELSE [e |-> "", s |-> Bound(head, a, Merged(Positional(args, a.n), m))]
(* ---------------------------------------------------------- metrics of a call *)
DefaultFilters == <<[p |-> "", k |-> "is_not_grouped", f |-> "grouped", warn |-> [V("sub", "") EXCEPT !.d = <<[p |-> "lit", k |-> "Metric '"], [p |-> "key", k |-> "metric_name"], [p |-> "lit", k |-> "' does not support grouped data"]>>], inv |-> None],
                    [p |-> "", k |-> "has_freq", f |-> "freq", warn |-> [V("sub", "") EXCEPT !.d = <<[p |-> "lit", k |-> "Metric '"], [p |-> "key", k |-> "metric_name"], [p |-> "lit", k |-> "' requires frequency to be set"]>>], inv |-> None]>>
FilterOf(c, k) == LET S == {i \in DOMAIN c.filters : c.filters[i].k = k} T == {i \in DOMAIN DefaultFilters : DefaultFilters[i].k = k}
                  IN  IF S # {} THEN <<c.filters[CHOOSE i \in S : TRUE]>> ELSE IF T # {} THEN <<DefaultFilters[CHOOSE i \in T : TRUE]>> ELSE <<>>
Settings(o, c) == Merged(<<It("to_timedelta", None), It("use_caching", V("b", "True")), It("freq", V("v", o.freq))>>, c.settings)
Silent(c) == c.silence = "yes"
Prep(o, c, f0, name, def) ==
    LET opt == Merged(<<It("self", Self(f0)), It("column", c.column), It("group_by", V("v", ByText(c.by))), It("metric_name", V("v", name)), It("agg_func", c.agg),
                        It("silence_warnings", V("b", IF Silent(c) THEN "True" ELSE "False"))>>, Settings(o, c))
        passed == Get(c.msets, name, [None EXCEPT !.d = <<>>]).d
        all == TLCEval(Merged(Merged(opt, def.items), passed))
        m1 == Without(all, {"template_mapping"})
        tm == TLCEval(SubstAll(Merged(c.tmap, Get(all, "template_mapping", None).d), m1))
        mapping == TLCEval(Merged(tm.m, m1))
        m2 == TLCEval(SubstAll(m1, mapping))
        f == Get(m2.m, "freq", None).s
        m3 == IF f = f0 THEN m2.m ELSE Merged(m2.m, <<It("self", Self(f)), It("use_caching", V("b", "False"))>>)
    IN  [e |-> IF tm.e # "" THEN tm.e ELSE m2.e, name |-> name, calc |-> def.calc, m |-> m3, map |-> mapping, f |-> f,
         opt |-> {Full(opt[i]) : i \in DOMAIN opt}, own |-> {Full(def.items[i]) : i \in DOMAIN def.items} \cup {Full(passed[i]) : i \in DOMAIN passed},
         quiet |-> Yes(Get(m2.m, "silence_warnings", None)),
         keep |-> c.tags = <<>> \/ (Has(m2.m, "tags") /\ Get(m2.m, "tags", None).s # "None" /\ \E i \in DOMAIN c.tags : Holds(c.tags[i], TagSet(Get(m2.m, "tags", None)))),
         warns |-> IF f = f0 \/ Yes(Get(m2.m, "silence_warnings", None)) THEN <<>> ELSE <<"copy">>]
(* ------------------------------------------------------------------- filters *)
Passes(o, c, x, flt) == CASE flt.f = "grouped" -> Groups(o, c.by) = <<>> [] flt.f = "freq" -> x.f # "None" [] OTHER -> Get(x.m, "a", None).s = "yes"
FilterNames(x) == Uniq([i \in DOMAIN SelectSeq(x.m, LAMBDA it : it.p \in {"check_", "inv_check_"}) |-> SelectSeq(x.m, LAMBDA it : it.p \in {"check_", "inv_check_"})[i].k])
(* one metric has at most one filter here *)
Filtered(o, c, x) ==
    LET ns == FilterNames(x) IN
    IF ns = <<>> THEN [e |-> "", keep |-> TRUE, warns |-> <<>>]
    ELSE LET flt == FilterOf(c, ns[1]) IN
         IF flt = <<>> THEN [e |-> "ValueError", keep |-> FALSE, warns |-> <<>>]
         ELSE LET chk == Yes(Get(x.m, "check_" \o ns[1], V("b", "False"))) inv == Yes(Get(x.m, "inv_check_" \o ns[1], V("b", "False")))
                  t == Passes(o, c, x, flt[1])
                  gone == (chk /\ ~t) \/ (inv /\ t)
                  W(v) == IF v.s = "None" \/ x.quiet THEN <<>> ELSE <<Subst(v, x.map).v.s>>
              IN  [e |-> "", keep |-> ~gone, warns |-> IF ~gone THEN <<>> ELSE (IF chk THEN W(flt[1].warn) ELSE <<>>) \o (IF inv THEN W(flt[1].inv) ELSE <<>>)]
(* --------------------------------------------------------------- calculating *)
(* a path of attributes: where it ends and what was handed to the first step *)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(o, x, m, path, at, passed) ==
    (* at: [e, k: "self" "node" "text" "series" "call", s, a] *)
    IF path = <<>> \/ at.e # "" THEN [at |-> at, passed |-> passed]
    ELSE LET el == path[1] last == Len(path) = 1
             calls == ~last \/ el.form # "str"
             own == at.k = "self"
             a == IF own THEN Attr[el.attr] ELSE NodeAttr[el.attr]
             head == (IF own THEN el.attr \o "@" \o x.f ELSE at.s \o "." \o el.attr)
             End(kind, s) == [e |-> "", k |-> kind, s |-> s, a |-> a]
             kw == [i \in DOMAIN el.kw |-> It(el.kw[i][1], V("v", el.kw[i][2]))]
             smart == own /\ calls /\ Yes(Get(m, "resolve_path_" \o el.attr, V("b", "True")))
             cond == SelectSeq(m, LAMBDA it : Full(it) \in x.opt /\ Full(it) \in Rng(a.n))
             given == IF smart THEN Merged(cond, kw) ELSE kw
             r == Call(head, a, el.args, given)
             next == IF a.k = "prop" THEN End(a.out, head)
                     ELSE IF a.k = "get" /\ ~smart THEN End(a.out, Bound(head, a, <<>>))
                     ELSE IF ~calls THEN End("call", head)
                     ELSE [End(a.out, r.s) EXCEPT !.e = r.e]
             told == IF smart /\ a.k # "prop" THEN {Full(given[i]) : i \in DOMAIN given} ELSE {}
         IN  Walk(o, x, m, Tail(path), TLCEval(next), passed \cup told)
RECURSIVE Resolved(_, _, _)
(* arguments to be looked up on the object *)
Resolved(x, m, names) ==
    IF names = <<>> THEN m
    ELSE LET k == names[1]
             w == IF Has(m, k) \/ ~Yes(Get(m, "resolve_" \o k, V("b", "False"))) THEN m
                  ELSE LET m1 == Without(m, {"resolve_" \o k}) IN
                       IF k \notin DOMAIN Attr THEN m1
                       ELSE Append(m1, It(k, V("v", IF Attr[k].k = "prop" THEN k \o "@" \o x.f ELSE Bound(k \o "@" \o x.f, Attr[k], m1))))
         IN  Resolved(x, TLCEval(w), Tail(names))
(* what a function is called with *)
Handed(x, m, names) ==
    LET r == Resolved(x, m, names)
        kept == SelectSeq(r, LAMBDA it : Full(it) \notin x.opt \/ (IF Has(r, "pass_" \o Full(it)) THEN Yes(Get(r, "pass_" \o Full(it), None)) ELSE Full(it) \in Rng(names)))
    IN  SelectSeq(kept, LAMBDA it : it.p \notin {"pass_", "resolve_", "resolve_path_"})
One(s) == [k |-> "one", s |-> <<s>>, n |-> 0]
Many(s) == [k |-> "many", s |-> s, n |-> 0]
Wide(o, c) == IF Groups(o, c.by) # <<>> THEN Len(Units(o, c.by)) > 1 ELSE o.ndim = 2
PerUnit(o, c, s) == IF Wide(o, c) THEN Many([u \in DOMAIN Units(o, c.by) |-> s \o "/" \o Units(o, c.by)[u]]) ELSE One(s)
Number(o, c, n, wide) == IF wide /\ Wide(o, c) THEN [k |-> "many", s |-> [u \in DOMAIN Units(o, c.by) |-> ToString(n + u)], n |-> n] ELSE [k |-> "one", s |-> <<ToString(n)>>, n |-> n]
(* the parts a calculation yields: <<[sub, val]>>; sub "" for a single one *)
Parts(o, c, out, s) ==
    CASE out = "scalar" -> <<[sub |-> "", v |-> One(s)]>>
      [] out = "series" -> <<[sub |-> "", v |-> PerUnit(o, c, s)]>>
      [] out = "dict" -> <<[sub |-> "k1", v |-> One(s)], [sub |-> "k2", v |-> PerUnit(o, c, s)]>>
      [] out = "num" -> <<[sub |-> "", v |-> Number(o, c, 5, FALSE)]>>
      [] OTHER -> <<[sub |-> "", v |-> Number(o, c, 5, TRUE)]>>
Calculated(o, c, x) ==
    LET quiet == x.quiet
        td0 == Get(x.m, "to_timedelta", None)
        td == IF td0.s = "None" THEN V("b", IF x.f # "None" THEN "True" ELSE "False") ELSE td0
        m0 == Without(SelectSeq(x.m, LAMBDA it : it.p \notin {"check_", "inv_check_"}), {"tags", "title", "resolve_calc_func", "post_calc_func", "use_caching", "fill_wrap_kwargs", "apply_to_timedelta"})
        m1 == Merged(m0, <<It("to_timedelta", td)>>)
        fill == Yes(Get(x.m, "fill_wrap_kwargs", V("b", "False")))
        m == TLCEval(IF fill THEN Merged(m1, <<It("wrap_kwargs", V("v", "{to_timedelta=" \o td.s \o ",silence_warnings=" \o Get(x.m, "silence_warnings", None).s \o "}"))>>) ELSE m1)
        F(names, req, var, mm) == LET h == TLCEval(Handed(x, mm, names)) IN
            IF (\E n \in Rng(req) : ~Has(h, n)) \/ (~var /\ \E i \in DOMAIN h : Full(h[i]) \notin Rng(names)) THEN [e |-> "TypeError", s |-> ""]
            ELSE [e |-> "", s |-> Term("", SelectSeq(Names, LAMBDA n : n \in Rng(names) \/ Has(h, n)), h)]
        R(e, parts) == [e |-> e, parts |-> parts]
        res == CASE x.calc.kind = "raw" -> R("", Parts(o, c, x.calc.out, Term("R@" \o x.f, <<"a", "metric_name">>, x.m)))
                 [] x.calc.kind = "func" -> LET r == F(x.calc.names, x.calc.req, x.calc.var, m) IN R(IF r.e # "" THEN r.e ELSE IF x.calc.out = "array" THEN "TypeError" ELSE "", Parts(o, c, x.calc.out, "F" \o r.s))
                 [] OTHER -> LET w == TLCEval(Walk(o, x, m, x.calc.path, [e |-> "", k |-> "self", s |-> "", a |-> 0], {}))
                                 mm == IF "group_by" \in w.passed /\ ~Has(m, "pass_group_by") THEN Without(m, {"group_by"}) ELSE m
                             IN  IF w.at.e # "" THEN R(w.at.e, <<>>)
                                 ELSE IF w.at.k = "call" THEN LET h == TLCEval(Handed(x, mm, w.at.a.n)) r == Call(w.at.s, w.at.a, <<>>, h) IN R(r.e, Parts(o, c, IF w.at.a.out = "series" THEN "series" ELSE "scalar", r.s))
                                 ELSE R("", Parts(o, c, IF w.at.k = "series" THEN "series" ELSE "scalar", w.at.s))
        post == Get(x.m, "post_calc_func", None).s # "None"
        Posted(v) == IF post THEN [v EXCEPT !.s = [i \in DOMAIN v.s |-> "post(" \o v.s[i] \o ")"]] ELSE v
        timed == Yes(Get(x.m, "apply_to_timedelta", V("b", "False"))) /\ Yes(td)
        Days(n) == "td" \o ToString(IF x.f = "2D" THEN 2 * n ELSE n)
        Timed(v) == IF timed /\ x.f # "None" THEN [v EXCEPT !.s = IF v.k = "one" THEN <<Days(v.n)>> ELSE [i \in DOMAIN v.s |-> Days(v.n + i)]] ELSE v
    IN  [e |-> res.e, parts |-> [i \in DOMAIN res.parts |-> [res.parts[i] EXCEPT !.v = Timed(Posted(@))]],
         warns |-> IF timed /\ res.e = "" /\ x.f = "None" /\ ~quiet THEN [i \in DOMAIN res.parts |-> "freq"] ELSE <<>>]
(* ------------------------------------------------------------------ the table *)
Start == [e |-> "", rows |-> <<>>, warns |-> <<>>, used |-> FALSE]
PutRow(rows, t, v) == LET S == {i \in DOMAIN rows : rows[i].t = t} IN IF S = {} THEN Append(rows, [t |-> t, v |-> v]) ELSE [rows EXCEPT ![CHOOSE i \in S : TRUE].v = v]
RECURSIVE AddParts(_, _, _, _, _)
AddParts(o, c, x, parts, st) ==
    IF parts = <<>> \/ st.e # "" THEN st
    ELSE LET part == parts[1]
             title == IF Has(x.m, "title") THEN Get(x.m, "title", None).s ELSE x.name
             t == IF part.sub = "" THEN title ELSE IF title = "None" THEN part.sub ELSE title \o ": " \o part.sub
             agg == Get(x.m, "agg_func", None)
             us == Units(o, c.by)
             lab == \E i \in DOMAIN us : us[i] = c.column.s
             skip == part.v.k = "many" /\ c.column.s = "None" /\ agg.s = "None" /\ c.agg.s # "None"
             miss == part.v.k = "many" /\ c.column.s # "None" /\ ~lab /\ c.column.t # "i"
             v == IF part.v.k = "one" THEN part.v
                  ELSE IF c.column.s # "None" THEN One(part.v.s[IF lab THEN CHOOSE i \in DOMAIN us : us[i] = c.column.s ELSE c.column.n + 1])
                  ELSE IF agg.s # "None" /\ c.agg.s # "None" THEN One(agg.s \o "[" \o Joined(part.v.s, "|") \o "]") ELSE part.v
             used == st.used \/ (part.v.k = "many" /\ c.column.s = "None" /\ agg.s # "None" /\ c.agg.s # "None")
             dup == \E i \in DOMAIN st.rows : st.rows[i].t = t
             st2 == IF miss THEN [st EXCEPT !.e = "KeyError"]
                    ELSE IF skip THEN [st EXCEPT !.warns = @ \o IF x.quiet THEN <<>> ELSE <<"multi:" \o x.name>>]
                    ELSE [e |-> "", rows |-> PutRow(st.rows, t, v), used |-> used, warns |-> st.warns \o IF dup /\ ~x.quiet THEN <<"dup:" \o t>> ELSE <<>>]
         IN  AddParts(o, c, x, Tail(parts), TLCEval(st2))
AddMetric(o, c, x, st) ==
    LET r == TLCEval(Calculated(o, c, x))
        st1 == [st EXCEPT !.warns = @ \o r.warns, !.e = r.e]
        st2 == TLCEval(IF r.e # "" THEN st1 ELSE AddParts(o, c, x, r.parts, st1))
    IN  IF st2.e # "" THEN [st2 EXCEPT !.warns = @ \o <<"raised:" \o x.name>>] ELSE st2
RECURSIVE AddAll(_, _, _, _)
AddAll(o, c, xs, st) == IF xs = <<>> \/ st.e # "" THEN st ELSE AddAll(o, c, Tail(xs), TLCEval(AddMetric(o, c, xs[1], st)))
(* metrics asked for, with definitions; repeated names are numbered *)
Asked(c) == IF c.all THEN [i \in DOMAIN c.own |-> c.own[i]] ELSE [i \in DOMAIN c.metrics |-> IF c.metrics[i].inline THEN c.metrics[i]
            ELSE LET S == {j \in DOMAIN c.own : c.own[j].name = c.metrics[i].name} IN IF S = {} THEN c.metrics[i] ELSE c.own[CHOOSE j \in S : TRUE]]
Unknown(c) == ~c.all /\ \E i \in DOMAIN c.metrics : ~c.metrics[i].inline /\ \A j \in DOMAIN c.own : c.own[j].name # c.metrics[i].name
Numbered(ms) == [i \in DOMAIN ms |-> LET same == {j \in DOMAIN ms : ms[j].name = ms[i].name} IN
                    IF Cardinality(same) = 1 THEN ms[i].name ELSE ms[i].name \o "_" \o ToString(Cardinality({j \in same : j < i}))]
Nothing(e, warns) == [e |-> e, warns |-> warns, kind |-> "none", name |-> "", rows |-> <<>>]
RECURSIVE UpTo(_, _)
(* the first error and the warnings up to it *)
UpTo(rs, ws) == IF rs = <<>> THEN [e |-> "", warns |-> ws] ELSE IF rs[1].e # "" THEN [e |-> rs[1].e, warns |-> ws] ELSE UpTo(Tail(rs), ws \o rs[1].warns)
Table(o, c) ==
    LET s0 == TLCEval(IF c.tmap = <<>> THEN [e |-> "", m |-> Settings(o, c)] ELSE SubstAll(Settings(o, c), c.tmap))
        f0 == Get(s0.m, "freq", None).s
        w0 == IF f0 # o.freq /\ ~Silent(c) THEN <<"copy">> ELSE <<>>
        ms == TLCEval(Asked(c))
        names == Numbered(ms)
        xs == TLCEval([i \in DOMAIN ms |-> Prep(o, c, f0, names[i], ms[i])])
        p == UpTo([i \in DOMAIN xs |-> [e |-> xs[i].e, warns |-> IF xs[i].keep THEN xs[i].warns ELSE <<>>]], w0)
        kept == SelectSeq(xs, LAMBDA x : x.keep)
        fs == TLCEval([i \in DOMAIN kept |-> Filtered(o, c, kept[i])])
        q == UpTo(fs, p.warns)
        left == [i \in DOMAIN SelectSeq([i \in DOMAIN kept |-> i], LAMBDA i : fs[i].keep) |-> kept[SelectSeq([j \in DOMAIN kept |-> j], LAMBDA j : fs[j].keep)[i]]]
        st == TLCEval(AddAll(o, c, left, [Start EXCEPT !.warns = q.warns]))
    IN  IF s0.e # "" THEN Nothing(s0.e, <<>>)
        ELSE IF Unknown(c) THEN Nothing("KeyError", w0)
        ELSE IF \E i \in DOMAIN c.msets : \A j \in DOMAIN names : names[j] # Full(c.msets[i]) THEN Nothing("ValueError", w0)
        ELSE IF p.e # "" THEN Nothing(p.e, p.warns)
        ELSE IF q.e # "" THEN Nothing(q.e, q.warns)
        ELSE IF left = <<>> THEN Nothing("", q.warns \o IF Silent(c) THEN <<>> ELSE <<"none">>)
        ELSE IF st.e # "" THEN Nothing(st.e, st.warns)
        ELSE LET flat == ~Wide(o, c)
                 n == Len(Units(o, c.by))
                 frame == ~flat /\ c.column.s = "None" /\ c.agg.s = "None"
             IN  [e |-> "", warns |-> st.warns \o IF ~flat /\ c.column.s = "None" /\ c.agg.s # "None" /\ st.used /\ ~Silent(c) THEN <<"agg">> ELSE <<>>,
                  kind |-> IF frame THEN "frame" ELSE "series",
                  name |-> IF flat THEN Units(o, c.by)[1] ELSE IF c.column.s # "None" THEN c.column.s ELSE IF frame THEN "" ELSE "agg_func_" \o c.agg.s,
                  rows |-> [i \in DOMAIN st.rows |-> [t |-> st.rows[i].t, v |-> IF frame /\ st.rows[i].v.k = "one" THEN [u \in 1..n |-> st.rows[i].v.s[1]] ELSE st.rows[i].v.s]]]
=============================================================================
