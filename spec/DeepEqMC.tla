------------------------------ MODULE DeepEqMC ------------------------------
(* Pairs of values are put into containers, one step at a time on both sides.  *)
EXTENDS DeepEq, Rep, FiniteSets
CONSTANT Deep
VARIABLES a, b, n
vars == <<a, b, n>>
Leaves == {Leaf("float", "", <<c>>, <<>>, "") : c \in {"1", "1~", "2", "nan"}} \cup {Leaf("int", "", <<c>>, <<>>, "") : c \in {"1", "2"}}
     \cup {Leaf("none", "", <<>>, <<>>, ""), Leaf("str", "", <<"x">>, <<>>, ""), Leaf("str", "", <<"y">>, <<>>, "")}
     \cup {Leaf("func", "", <<c>>, <<>>, "") : c \in {"1", "2"}}
     \cup {Leaf("array", "float", v, <<2>>, "") : v \in {<<"1", "nan">>, <<"1~", "nan">>, <<"1", "2">>, <<"1", "1">>, <<"1~", "1">>}}
     \cup {Leaf("array", "float", <<"1">>, <<>>, ""), Leaf("array", "float", <<"1~">>, <<>>, ""), Leaf("array", "float", <<"1">>, <<1>>, ""), Leaf("array", "float", <<"1", "1">>, <<2, 1>>, ""), Leaf("array", "float", <<>>, <<0>>, ""), Leaf("array", "float", <<>>, <<0, 2>>, ""),
           Leaf("array", "int", <<"1", "1">>, <<2>>, ""), Leaf("array", "int", <<"1", "2">>, <<2>>, ""), Leaf("array", "bool", <<"1", "1">>, <<2>>, "")}
     \cup {Leaf("array", "rec", v, <<2>>, "") : v \in {<<"1", "1">>, <<"1~", "1">>, <<"2", "1">>}} \cup {Leaf("array", "rec", <<"1">>, <<>>, "")}
     \cup {Leaf(k, "float", v, <<2>>, nm) : k \in {"series", "frame"}, v \in {<<"1", "nan">>, <<"1~", "nan">>, <<"2", "nan">>}, nm \in {"p", "q"}}
     \cup {Leaf("index", "float", v, <<2>>, nm) : v \in {<<"1", "2">>, <<"1~", "2">>, <<"2", "2">>}, nm \in {"p", "q"}}
     \cup {Box("list", <<>>, <<>>), Box("tuple", <<>>, <<>>), Box("dict", <<>>, <<>>)}
One == Leaf("int", "", <<"1">>, <<>>, "")
Wraps(x) == {Box("list", <<>>, <<x>>), Box("tuple", <<>>, <<x>>), Box("list", <<>>, <<x, One>>), Box("list", <<>>, <<One, x>>), Box("dict", <<"k">>, <<x>>), Box("dict", <<"l">>, <<x>>),
             Box("dict", <<"k", "l">>, <<x, One>>), Box("dict", <<"l", "k">>, <<One, x>>)}
Init == a \in Leaves /\ b \in Leaves /\ n = 0 /\ Emit([a |-> a, b |-> b, loose |-> Eq(FALSE, a, b), exact |-> Eq(TRUE, a, b)])
Next == n < Deep /\ n' = n + 1 /\ (n > 0 => a.k # "none" /\ Eq(FALSE, a, b)) /\ a' \in Wraps(a) /\ b' \in Wraps(b) /\ Emit([a |-> a', b |-> b', loose |-> Eq(FALSE, a', b'), exact |-> Eq(TRUE, a', b')])
Spec == Init /\ [][Next]_vars
Reflexive == Eq(TRUE, a, a)
Symmetric == \A e \in BOOLEAN : Eq(e, a, b) = Eq(e, b, a)
Finer == Eq(TRUE, a, b) => Eq(FALSE, a, b)
(* an equal pair stays equal in equal containers, and only there *)
Congruent == [][(Eq(TRUE, a', b') => Eq(TRUE, a, b)) /\ (Eq(FALSE, a', b') => Eq(FALSE, a, b))]_vars
=============================================================================
