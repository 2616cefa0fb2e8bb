----------------------------- MODULE MappingMC -----------------------------
(* Mappings grow pair by pair; every value is looked up after each step.       *)
EXTENDS Mapping, Rep, FiniteSets
CONSTANTS N, Wide
VARIABLES m, o
vars == <<m, o>>
Texts == {Txt(<<"aa">>), Txt(<<"AA">>), Txt(<<"Aa", "_", "bb">>), Txt(<<"aa", "bb">>)} \cup (IF Wide THEN {Txt(<<"Bb">>)} ELSE {})
Ints == {Num("0"), Num("1"), Num("-1")} \cup (IF Wide THEN {Num("2")} ELSE {})
Keys == Texts \cup Ints \cup {Null}
Vals == {Txt(<<"aa">>), Txt(<<"BB">>), Num("1"), Num("5"), Null}
Base == [case |-> TRUE, under |-> TRUE, types |-> {}, miss |-> FALSE, na |-> Null, rev |-> FALSE]
Opts == {[Base EXCEPT !.case = a, !.under = b, !.miss = e, !.na = n, !.rev = r, !.types = y] :
         a \in BOOLEAN, b \in BOOLEAN, e \in BOOLEAN, n \in {Null, Num("7")}, r \in BOOLEAN, y \in {{}, {"i"}, {"s"}}}
Probe == Texts \cup Ints \cup {Null, Txt(<<"BB">>), [t |-> "b", v |-> "1", w |-> <<>>], [t |-> "f", v |-> "1/2", w |-> <<>>]}
One(x) == [k |-> "scalar", cols |-> <<[dt |-> x.t, d |-> <<x>>]>>]
Ans(x) == Mapped(One(x), m, o)[1][1]
Say(mm, oo) == LET ps == Probe IN Emit([m |-> mm, o |-> oo, q |-> {<<x, Mapped(One(x), mm, oo)[1][1]>> : x \in ps}])
Init == m \in [k : {"dict", "enum", "list"}, ks : {<<>>}, vs : {<<>>}] /\ o \in Opts
Add(k, v) == m' = [m EXCEPT !.ks = Append(@, k), !.vs = Append(@, v)]
Fresh(k) == ~\E j \in DOMAIN m.ks : Same(m.ks[j], k)
Next == /\ Len(m.vs) < N /\ o' = o
        /\ \/ m.k = "dict" /\ \E k \in Keys : \E v \in Vals : Fresh(k) /\ Add(k, v)
           \/ m.k = "enum" /\ \E k \in Texts : \E v \in Ints : Fresh(k) /\ (\A j \in DOMAIN m.vs : ~Same(m.vs[j], v)) /\ Add(k, v)
           \/ m.k = "list" /\ \E v \in Vals : Add(Null, v)
        /\ Say(m', o)
Spec == Init /\ [][Next]_vars
(* missing values never fail; types left alone stay; nothing fails if values not found are left *)
Total == /\ Ans(Null).t # "err" /\ (\A x \in Probe : x.t \in o.types => Ans(x) = x) /\ (o.miss => \A x \in Probe : Ans(x).t # "err")
(* ignoring case: writing does not matter *)
Writing == o.case => Same(Ans(Txt(<<"aa">>)), Ans(Txt(<<"AA">>))) \/ "s" \in o.types
Strokes == o.under /\ o.case => Same(Ans(Txt(<<"aa", "bb">>)), Ans(Txt(<<"Aa", "_", "bb">>))) \/ "s" \in o.types
(* names to values and back: an enumeration whose names differ by more than what is ignored *)
Apart == \A i, j \in DOMAIN m.ks : i # j => ~Same(Norm(m.ks[i], o), Norm(m.ks[j], o))
There == m.k = "enum" /\ Apart /\ o.types = {} =>
    \A j \in DOMAIN m.ks : /\ Same(Conv(m.ks[j], Table(m, [o EXCEPT !.rev = TRUE]), o), m.vs[j])
                           /\ Same(Conv(m.vs[j], Table(m, [o EXCEPT !.rev = FALSE]), o), m.ks[j])
(* a later pair changes nothing but the values it names *)
Local == [][\A x \in Probe : LET n == Len(m'.vs) p == Pairs(m')[n] key == IF o.rev THEN p[2] ELSE p[1] IN
             m.k = "dict" /\ ~Same(Norm(x, o), Norm(key, o)) => Same(Mapped(One(x), m', o)[1][1], Ans(x)) \/ x.t = "n"]_vars
=============================================================================
