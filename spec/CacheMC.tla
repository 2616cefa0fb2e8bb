------------------------------- MODULE CacheMC ------------------------------
(* Every pair of conditions, white and black, with the global switch either    *)
(* way, and every short sequence of calls and clears.                          *)
EXTENDS Cache, Rep
CONSTANTS Len0, Two
VARIABLES st, prog, outs, hist
vars == <<st, prog, outs, hist>>
Conds == {[None EXCEPT !.inst = i, !.func = f, !.cls = k, !.base = b, !.flags = g] :
             i \in {"", "a1"}, f \in {"", "f", "A.m"}, k \in {"", "A"}, b \in {"", "A", "B"}, g \in {{}, {<<"x", 0>>}, {<<"y", 0>>}}}
Few == {c \in Conds : Cardinality({x \in {"inst", "func", "cls", "base"} : c[x] # ""}) + Cardinality(c.flags) <= 2}
Ranked == {[None EXCEPT !.func = "f", !.rank = 0], [None EXCEPT !.base = "A", !.rank = 1], [None EXCEPT !.rank = 0]}
Lists == {<<>>} \cup {<<c>> : c \in Few \cup Ranked}
Objs == [o \in {"a1", "a2", "b1"} |-> IF o = "b1" THEN "B" ELSE "A"]
A1 == [t |-> "int", v |-> 1]
Init == \E e \in {TRUE, FALSE}, w \in Lists, b \in IF Two THEN Lists ELSE {<<>>, <<[None EXCEPT !.base = "A"]>>, <<[None EXCEPT !.inst = "a1", !.func = "f"]>>, <<[None EXCEPT !.func = "f"]>>} :
           st = [Fresh(Objs) EXCEPT !.enabled = e, !.white = w, !.black = b] /\ prog = <<>> /\ outs = <<>> /\ hist = <<>>
Order == <<<<"a1", "f">>, <<"a1", "f">>, <<"a1", "m">>, <<"a1", "m">>, <<"b1", "f">>, <<"b1", "f">>, <<"b1", "m">>, <<"b1", "m">>,
           <<"a2", "f">>, <<"a2", "f">>, <<"a1", "f">>, <<"b1", "g">>, <<"b1", "g">>, <<"a1", "m">>>>
(* the fixed walk shows for every pair of conditions what is cached *)
Walk == /\ Len0 = 0 /\ Len(prog) < Len(Order)
        /\ LET x == Order[Len(prog) + 1] o == [op |-> "call", obj |-> x[1], name |-> x[2], arg |-> A1] r == TLCEval(Call(st, o)) IN
             /\ st' = r.st /\ prog' = Append(prog, o) /\ outs' = Append(outs, r.val) /\ hist' = Append(hist, <<o, st, r.val>>)
             /\ (Len(prog') = Len(Order) => Emit([enabled |-> st.enabled, white |-> st.white, black |-> st.black, prog |-> prog', outs |-> outs']))
(* free sequences *)
Ops == {[op |-> "call", obj |-> o, name |-> x, arg |-> A1] : o \in {"a1", "b1"}, x \in {"f", "g"}}
  \cup {[op |-> "call", obj |-> o, name |-> x, arg |-> [t |-> t, v |-> v]] : o \in {"a1", "b1"}, x \in {"m", "p"}, t \in {"int", "float", "list"}, v \in {1, 2}}
  \cup {[op |-> "clear", obj |-> o, name |-> x] : o \in {"a1", "b1"}, x \in {"f", "m"}} \cup {[op |-> "enabled", on |-> b] : b \in {TRUE, FALSE}}
Free == /\ Len0 > 0 /\ Len(prog) < Len0
        /\ \E o \in Ops : LET r == TLCEval(IF o.op = "call" THEN Call(st, o) ELSE [st |-> Set(st, o), val |-> 0]) IN
             /\ st' = r.st /\ prog' = Append(prog, o) /\ outs' = Append(outs, r.val) /\ hist' = Append(hist, <<o, st, r.val>>)
             /\ (Len(prog') = Len0 => Emit([enabled |-> TRUE, white |-> <<>>, black |-> <<>>, prog |-> prog', outs |-> outs']))
Next == Walk \/ Free
Spec == (IF Len0 = 0 THEN Init ELSE st = Fresh(Objs) /\ prog = <<>> /\ outs = <<>> /\ hist = <<>>) /\ [][Next]_vars
(* a value handed out was computed for the same object, function and argument, and never after a clear that followed it *)
Inv == \A j \in 1..Len(hist) : LET o == hist[j][1] v == hist[j][3] IN
         o.op = "call" =>
           \E i \in 1..j : LET q == hist[i][1] IN
              /\ q.op = "call" /\ hist[i][2].n + 1 = v /\ q.obj = o.obj /\ q.name = o.name /\ (o.name \in {"f", "g"} \/ q.arg.v = o.arg.v)
              /\ ~\E k \in (i + 1)..(j - 1) : hist[k][1].op = "clear" /\ hist[k][1].obj = o.obj /\ hist[k][1].name = o.name
Small == \A o \in DOMAIN st.cache : \A x \in Names : Len(st.cache[o][x]) <= Fun(st.cls[o], x).maxsize
(* narrower beats broader *)
Ranks == \A c, d \in Few : (c.inst # "" /\ d.inst = "" => Narrow(c) < Narrow(d)) /\ (c.inst = d.inst /\ c.cls # "" /\ d.cls = "" /\ c.inst = "" => Narrow(c) < Narrow(d))
ASSUME Ranks
=============================================================================
