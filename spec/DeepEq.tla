------------------------------- MODULE DeepEq -------------------------------
(* When two nested values count as equal: same type, same shape, labels and    *)
(* keys, and equal values, where arrays and frames may differ by rounding      *)
(* unless compared exactly.  Numbers are coded: "1~" is 1 up to rounding.      *)
EXTENDS Naturals, Sequences
Leaf(k, dt, v, sh, n) == [k |-> k, dt |-> dt, v |-> v, sh |-> sh, n |-> n, keys |-> <<>>, items |-> <<>>]
Box(k, keys, items) == [k |-> k, dt |-> "", v |-> <<>>, sh |-> <<>>, n |-> "", keys |-> keys, items |-> items]
Round(c) == IF c = "1~" THEN "1" ELSE c
Arrays == {"array", "series", "frame", "index"}
SameV(exact, x, y) == Len(x) = Len(y) /\ \A i \in DOMAIN x : IF exact THEN x[i] = y[i] ELSE Round(x[i]) = Round(y[i])
At(a, key) == a.items[CHOOSE i \in DOMAIN a.keys : a.keys[i] = key]
RECURSIVE Eq(_, _, _)
Eq(exact, a, b) ==
    /\ a.k = b.k
    /\ IF a.k \in Arrays THEN a.dt = b.dt /\ a.sh = b.sh /\ a.n = b.n /\ SameV(exact, a.v, b.v)
       ELSE IF a.k \in {"list", "tuple"} THEN Len(a.items) = Len(b.items) /\ \A i \in DOMAIN a.items : Eq(exact, a.items[i], b.items[i])
       ELSE IF a.k = "dict" THEN {a.keys[i] : i \in DOMAIN a.keys} = {b.keys[i] : i \in DOMAIN b.keys} /\ \A i \in DOMAIN a.keys : Eq(exact, a.items[i], At(b, a.keys[i]))
       ELSE a.dt = b.dt /\ a.v = b.v
=============================================================================
