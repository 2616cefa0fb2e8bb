------------------------------ MODULE Mapping ------------------------------
(* Translation of names and values by mappings and enumerations, in scalars   *)
(* and containers.  A value is [t, v, w]: t is its type ("i" integer, "f"     *)
(* floating, "b" boolean, "s" text, "n" missing), v its number, w its words:  *)
(* a text is a sequence of words, one of which is the underscore.             *)
EXTENDS Integers, Sequences, TLC
Null == [t |-> "n", v |-> "", w |-> <<>>]
Num(v) == [t |-> "i", v |-> v, w |-> <<>>]
Txt(w) == [t |-> "s", v |-> "", w |-> w]
Missing == [t |-> "err", v |-> "", w |-> <<>>]
Lower(x) == CASE x = "AA" -> "aa" [] x = "Aa" -> "aa" [] x = "BB" -> "bb" [] x = "Bb" -> "bb" [] x = "CC" -> "cc" [] x = "Cc" -> "cc" [] OTHER -> x
(* numbers are compared by what they are worth whatever their type *)
Same(a, b) == IF a.t \in {"s", "n", "err"} \/ b.t \in {"s", "n", "err"} THEN a.t = b.t /\ a.w = b.w ELSE a.v = b.v
(* o: [case, under, types, miss, na, rev]: whether case and underscores are ignored, types left alone, whether to leave values not found, the sentinel, and whether *)
(* the mapping is turned around                                                                                                                                   *)
Norm(x, o) == IF x.t # "s" THEN x
              ELSE LET q == IF o.under THEN SelectSeq(x.w, LAMBDA u : u # "_") ELSE x.w IN [x EXCEPT !.w = [i \in DOMAIN q |-> IF o.case THEN Lower(q[i]) ELSE q[i]]]
(* m: [k, ks, vs]: kind, keys and values of a mapping; a list numbers its values, an enumeration has names for keys and values to look up, and -1 is nothing *)
Pairs(m) ==
    CASE m.k \in {"list", "index"} -> [j \in DOMAIN m.vs |-> <<Num(ToString(j - 1)), m.vs[j]>>]
      [] m.k = "enum" -> [j \in DOMAIN m.ks |-> <<m.vs[j], m.ks[j]>>]
                         \o (IF \E j \in DOMAIN m.vs : m.vs[j].v = "-1" THEN <<>> ELSE <<<<Num("-1"), Null>>>>)
      [] OTHER -> [j \in DOMAIN m.ks |-> <<m.ks[j], m.vs[j]>>]
Flip(ps) == [j \in DOMAIN ps |-> <<ps[j][2], ps[j][1]>>]
(* the first of equal keys keeps its place, the last its value *)
Dict(ps) ==
    LET first(j) == ~\E i \in 1..(j - 1) : Same(ps[i][1], ps[j][1])
        last(j) == CHOOSE i \in j..Len(ps) : Same(ps[i][1], ps[j][1]) /\ ~\E h \in (i + 1)..Len(ps) : Same(ps[h][1], ps[j][1])
        all == [j \in DOMAIN ps |-> <<ps[j][1], ps[last(j)][2], first(j)>>]
    IN  SelectSeq(all, LAMBDA p : p[3])
Table(m, o) == LET d == Dict(Pairs(m)) IN IF o.rev THEN Dict(Flip(d)) ELSE d
Nulls(d) == SelectSeq(d, LAMBDA p : p[1].t = "n")
Sentinel(d, o) == IF Nulls(d) = <<>> THEN o.na ELSE Nulls(d)[Len(Nulls(d))][2]
Conv(x, d, o) ==
    IF x.t = "n" THEN Sentinel(d, o)
    ELSE LET hit == SelectSeq(d, LAMBDA p : p[1].t # "n" /\ Same(Norm(p[1], o), Norm(x, o))) IN
         IF hit # <<>> THEN hit[Len(hit)][2] ELSE IF o.miss THEN Norm(x, o) ELSE Missing
(* a thing is [k, cols]: kind and columns [dt, d]; each value of a container of Python is taken by itself, an array as a whole, by its type or that of its first value *)
Loose == {"scalar", "tuple", "list", "set", "frozenset"}
Left(k, col, j, o) == IF k \in Loose THEN col.d[j].t \in o.types ELSE IF col.dt = "o" THEN col.d[1].t \in o.types ELSE col.dt \in o.types
Mapped(x, m, o) ==
    IF m.k = "none" THEN [c \in DOMAIN x.cols |-> x.cols[c].d]
    ELSE LET d == Table(m, o) IN
         [c \in DOMAIN x.cols |-> [j \in DOMAIN x.cols[c].d |-> IF Left(x.k, x.cols[c], j, o) THEN x.cols[c].d[j] ELSE Conv(x.cols[c].d[j], d, o)]]
Fails(r) == \E c \in DOMAIN r : \E j \in DOMAIN r[c] : r[c][j].t = "err"
(* what was got is what is wanted: a value not found that is left may also keep its writing *)
Alike(got, want, x, o) == Same(got, want) \/ (o.miss /\ Same(got, x) /\ Same(want, Norm(x, o)))
=============================================================================
