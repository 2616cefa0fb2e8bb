-------------------------------- MODULE Cache -------------------------------
(* Cached properties and methods.  Two classes, B derived from A and           *)
(* overriding some of its functions, and objects of either.  A cache maps an   *)
(* object and a function name to the stored calls, least recently used first.  *)
(* Whether a call may use the cache is decided by the ranked conditions.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bases(cls) == IF cls = "B" THEN {"A", "B"} ELSE {"A"}
(* the function a class runs under a name *)
F(id, name, kind, flags, maxsize, typed) == [id |-> id, name |-> name, kind |-> kind, flags |-> flags, maxsize |-> maxsize, typed |-> typed]
Fun(cls, name) ==
    CASE name = "f" /\ cls = "A" -> F("A.f", "f", "prop", {<<"x", 0>>, <<"y", 0>>}, 1, FALSE)
      [] name = "f" /\ cls = "B" -> F("B.f", "f", "prop", {<<"y", 0>>, <<"z", 0>>}, 1, FALSE)
      [] name = "g" -> F("A.g", "g", "prop", {}, 1, FALSE)
      [] name = "m" /\ cls = "A" -> F("A.m", "m", "method", {<<"x", 0>>}, 2, FALSE)
      [] name = "m" /\ cls = "B" -> F("B.m", "m", "method", {<<"x", 1>>}, 1, FALSE)
      [] name = "p" -> F("A.p", "p", "method", {<<"y", 1>>}, 128, TRUE)
Names == {"f", "g", "m", "p"}
(* a condition: inst, func, cls, base: the thing or ""; flags: a set; rank: -1 if not given.  A function is given by its name or itself (id) *)
None == [inst |-> "", func |-> "", cls |-> "", base |-> "", flags |-> {}, rank |-> -1]
Matches(c, obj, cls, fn) ==
    /\ c.inst \in {"", obj} /\ c.func \in {"", fn.name, fn.id} /\ c.cls \in {"", cls}
    /\ (c.base = "" \/ c.base \in Bases(cls)) /\ c.flags \subseteq fn.flags
Narrow(c) == \* the rank of a condition by the keys it gives
    LET by(base) == IF c.func # "" THEN base ELSE IF c.flags # {} THEN base + 1 ELSE base + 2 IN
    IF c.inst # "" THEN by(0) ELSE IF c.cls # "" THEN by(3) ELSE IF c.base # "" THEN by(6)
    ELSE IF c.func # "" /\ c.flags # {} THEN 9 ELSE IF c.func # "" THEN 10 ELSE IF c.flags # {} THEN 11 ELSE 100
Rank(c, obj, cls, fn) ==
    IF ~Matches(c, obj, cls, fn) \/ Narrow(c) = 100 THEN 100 ELSE IF c.rank >= 0 THEN c.rank ELSE Narrow(c)
Best(conds, obj, cls, fn) == LET S == {Rank(conds[j], obj, cls, fn) : j \in 1..Len(conds)} \cup {100} IN CHOOSE m \in S : \A x \in S : m <= x
Should(enabled, white, black, obj, cls, fn) ==
    LET w == Best(white, obj, cls, fn) b == Best(black, obj, cls, fn) IN IF w = b THEN enabled ELSE w < b

(* state: [enabled, white, black, cls: object -> class, cache: object -> name -> Seq([key, val]), n: calls made] *)
NoCache == [x \in Names |-> <<>>]
Fresh(objs) == [enabled |-> TRUE, white |-> <<>>, black |-> <<>>, cls |-> objs, cache |-> [o \in DOMAIN objs |-> NoCache], n |-> 0]
(* arg: [t: type, v: value]; an unhashable argument is never stored *)
Key(fn, arg) == IF fn.kind = "prop" THEN <<"", 0>> ELSE IF fn.typed THEN <<arg.t, arg.v>> ELSE <<"", arg.v>>
Call(st, o) ==
    LET fn == Fun(st.cls[o.obj], o.name)
        use == Should(st.enabled, st.white, st.black, o.obj, st.cls[o.obj], fn) /\ ~(fn.kind = "method" /\ o.arg.t = "list")
        q == st.cache[o.obj][o.name]
        hits == {j \in 1..Len(q) : q[j].key = Key(fn, o.arg)}
        hit == use /\ hits # {}
        j == CHOOSE j \in hits : TRUE
        val == IF hit THEN q[j].val ELSE st.n + 1
        kept == IF hit THEN SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q)) ELSE IF Len(q) >= fn.maxsize THEN Tail(q) ELSE q
        q2 == IF use THEN Append(kept, [key |-> Key(fn, o.arg), val |-> val]) ELSE q
    IN [st |-> [st EXCEPT !.cache[o.obj][o.name] = q2, !.n = IF hit THEN @ ELSE @ + 1], val |-> val]
Drop(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Set(st, o) ==
    CASE o.op = "clear" -> [st EXCEPT !.cache[o.obj][o.name] = <<>>]
      [] o.op = "enabled" -> [st EXCEPT !.enabled = o.on]
      [] o.op = "white" -> [st EXCEPT !.white = Append(@, o.cond)]
      [] o.op = "black" -> [st EXCEPT !.black = Append(@, o.cond)]
      [] o.op = "unwhite" -> [st EXCEPT !.white = Drop(@, o.j)]
      [] o.op = "unblack" -> [st EXCEPT !.black = Drop(@, o.j)]
      [] o.op = "new" -> [st EXCEPT !.cls = @ @@ (o.obj :> o.cls), !.cache = @ @@ (o.obj :> NoCache)]
=============================================================================
