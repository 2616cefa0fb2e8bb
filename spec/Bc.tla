--------------------------------- MODULE Bc ---------------------------------
(* Broadcasting of scalars, arrays, series and frames, the combination of      *)
(* their labels, and flexible indexing of arrays left unbroadcast.             *)
(* An index is a sequence of levels [n |-> name, v |-> labels]; an input is    *)
(* [k, r, c, v, ix, cx]: kind ("s" scalar, "1"/"2" array, "sr", "fr"), rows,   *)
(* columns, cells in row-major order, index and columns.                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Rng(s) == {s[i] : i \in 1..Len(s)}
MaxOf(s) == CHOOSE x \in Rng(s) : \A y \in Rng(s) : y <= x
Pd(a) == a.k \in {"sr", "fr"}
Nd(a) == CASE a.k = "s" -> 0 [] a.k \in {"1", "sr"} -> 1 [] OTHER -> 2
----------------------------------------------------------------------------
(* indexes *)
ILen(ix) == Len(ix[1].v)
NoIx == <<[n |-> "!refused", v |-> <<>>]>>
OwnIx == <<[n |-> "!own", v |-> <<>>]>>
Plain(n) == <<[n |-> "", v |-> [i \in 1..n |-> ToString(i - 1)]]>>
IsPlain(ix) == ix = Plain(ILen(ix))
RepSeq(s, n) == [i \in 1..(Len(s) * n) |-> s[((i - 1) \div n) + 1]]
TileSeq(s, n) == [i \in 1..(Len(s) * n) |-> s[((i - 1) % Len(s)) + 1]]
RepIx(ix, n) == IF IsPlain(ix) THEN Plain(ILen(ix) * n) ELSE [l \in DOMAIN ix |-> [n |-> ix[l].n, v |-> RepSeq(ix[l].v, n)]]
TileIx(ix, n) == IF IsPlain(ix) THEN Plain(ILen(ix) * n) ELSE [l \in DOMAIN ix |-> [n |-> ix[l].n, v |-> TileSeq(ix[l].v, n)]]
Keep(ix, P(_)) == LET ids == SelectSeq([i \in DOMAIN ix |-> i], P) IN [i \in DOMAIN ids |-> ix[ids[i]]]
DropDup(ix, keep) ==
    IF Len(ix) = 1 THEN ix
    ELSE Keep(ix, LAMBDA i : IF keep = "first" THEN \A j \in 1..(i - 1) : ix[j] # ix[i] ELSE \A j \in (i + 1)..Len(ix) : ix[j] # ix[i])
Redundant(l) == \/ Len(l.v) > 1 /\ l.n = "" /\ Cardinality(Rng(l.v)) = 1
                \/ <<l>> = Plain(Len(l.v))
DropRed(ix) == IF Len(ix) = 1 \/ \A i \in DOMAIN ix : Redundant(ix[i]) THEN ix ELSE Keep(ix, LAMBDA i : ~Redundant(ix[i]))
(* o: [dup, keep, red] *)
Stack(ixs, o) ==
    LET s == FlattenSeq(ixs)
        d == IF o.dup THEN DropDup(s, o.keep) ELSE s
    IN  IF o.red THEN DropRed(d) ELSE d
Combine2(a, b, o) == Stack(<<RepIx(a, ILen(b)), TileIx(b, ILen(a))>>, o)
RECURSIVE Combine(_, _)
Combine(ixs, o) == IF Len(ixs) = 1 THEN ixs[1] ELSE Combine2(Combine(SubSeq(ixs, 1, Len(ixs) - 1), o), ixs[Len(ixs)], o)
Row(ix, i) == [l \in DOMAIN ix |-> ix[l].v[i]]
Sub(ix, pos) == [l \in DOMAIN ix |-> [n |-> ix[l].n, v |-> [i \in DOMAIN pos |-> ix[l].v[pos[i]]]]]
SelLevels(ix, ls) == [i \in DOMAIN ls |-> ix[ls[i]]]
(* positions of a that line it up with b: <<>> if that is refused *)
AlignTo(a, b) ==
    LET Cand(i) == SelectSeq([j \in DOMAIN b |-> j], LAMBDA j : a[i].n = b[j].n /\ Rng(b[j].v) \subseteq Rng(a[i].v))
        bad == \E i \in DOMAIN a : Len(Cand(i)) > 1 \/ \E j \in DOMAIN b : a[i].n # "" /\ a[i].n = b[j].n /\ ~(Rng(b[j].v) \subseteq Rng(a[i].v))
        used == SelectSeq([i \in DOMAIN a |-> i], LAMBDA i : Cand(i) # <<>>)
        A(p) == [u \in DOMAIN used |-> a[used[u]].v[p]]
        B(q) == [u \in DOMAIN used |-> b[Cand(used[u])[1]].v[q]]
        na == ILen(a)
        nb == ILen(b)
        same == Len(a) = Len(b) /\ na = nb /\ \A i \in DOMAIN a : a[i].v = b[i].v
    IN  IF same THEN [i \in 1..na |-> i]
        ELSE IF bad \/ used = <<>> THEN <<>>
        ELSE IF Cardinality({A(p) : p \in 1..na}) # na THEN <<>>
        ELSE IF \E q \in 1..nb : \A p \in 1..na : A(p) # B(q) THEN <<>>
        ELSE [q \in 1..nb |-> CHOOSE p \in 1..na : A(p) = B(q)]
(* positions for each of several indexes, or <<>> *)
AlignAll(ixs) ==
    LET mx == MaxOf([i \in DOMAIN ixs |-> ILen(ixs[i])])
        Try(i) == SelectSeq([j \in DOMAIN ixs |-> j], LAMBDA j : ILen(ixs[j]) = mx /\ AlignTo(ixs[i], ixs[j]) # <<>>)
        One(i) == IF ILen(ixs[i]) = mx THEN [p \in 1..mx |-> p] ELSE IF Try(i) = <<>> THEN <<>> ELSE AlignTo(ixs[i], ixs[Try(i)[1]])
        all == [i \in DOMAIN ixs |-> One(i)]
    IN  IF \E i \in DOMAIN all : all[i] = <<>> THEN <<>> ELSE all
----------------------------------------------------------------------------
(* shapes and elements *)
Shape(a, two) == IF ~two THEN <<IF Nd(a) = 0 THEN 1 ELSE a.r>>
                 ELSE CASE a.k = "1" -> <<1, a.r>> [] a.k = "sr" -> <<a.r, 1>> [] OTHER -> <<a.r, a.c>>
Dim(ds) == LET b == Rng(ds) \ {1} IN IF b = {} THEN 1 ELSE IF Cardinality(b) = 1 THEN CHOOSE x \in b : TRUE ELSE 0
(* the element of input a that cell (i, j) of the result shows: the rules of broadcasting *)
El(a, i, j, two) ==
    LET s == Shape(a, two)
        y == IF s[1] = 1 THEN 1 ELSE i
        x == IF two THEN (IF s[2] = 1 THEN 1 ELSE j) ELSE 1
    IN  a.v[IF two THEN (y - 1) * s[2] + x ELSE y]
(* ... and how flexible indexing finds it in a raw array of nd dimensions *)
Flex(v, nd, r, c, i, j, flex2d) ==
    LET fi == CASE nd = 0 -> 1 [] nd = 1 /\ flex2d -> 1 [] OTHER -> IF r = 1 THEN 1 ELSE i
        fc == CASE nd = 0 -> 1 [] nd = 1 /\ ~flex2d -> 1 [] nd = 1 -> (IF r = 1 THEN 1 ELSE j) [] OTHER -> IF c = 1 THEN 1 ELSE j
    IN  IF nd = 0 THEN v[1] ELSE IF nd = 1 THEN v[IF flex2d THEN fc ELSE fi] ELSE v[(fi - 1) * c + fc]
----------------------------------------------------------------------------
(* labels of the result along one axis: NoIx = refused, OwnIx = each its own *)
AxIx(a, axis) == IF axis = 0 THEN a.ix ELSE a.cx
(* m: [m, at, ix] *)
RECURSIVE Fold(_, _, _, _, _)
Fold(ixs, i, acc, mode, o) ==
    IF i > Len(ixs) THEN acc
    ELSE LET x == ixs[i] IN
         IF acc = <<>> THEN Fold(ixs, i + 1, x, mode, o)
         ELSE IF x = acc THEN Fold(ixs, i + 1, acc, mode, o)
         ELSE IF mode = "strict" THEN NoIx
         ELSE LET n == ILen(x) k == ILen(acc) IN
              IF n # k /\ n > 1 /\ k > 1 THEN NoIx
              ELSE Fold(ixs, i + 1, Stack(<<IF n > k THEN RepIx(acc, n) ELSE acc, IF n < k THEN RepIx(x, k) ELSE x>>, o), mode, o)
NewIx(args, len, axis, m, o) ==
    LET pds == SelectSeq(args, Pd)
        ixs == [i \in DOMAIN pds |-> AxIx(pds[i], axis)]
        counted == SelectSeq([i \in DOMAIN pds |-> i], LAMBDA i : ~(axis = 1 /\ pds[i].k = "sr" /\ o.ign) /\ ~IsPlain(ixs[i]))
        base == CASE m.m = "reset" -> Plain(len)
                  [] m.m = "at" -> IF Pd(args[m.at]) THEN AxIx(args[m.at], axis) ELSE NoIx
                  [] m.m = "given" -> m.ix
                  [] OTHER -> IF Cardinality(Rng(ixs)) <= 1 THEN (IF ixs = <<>> THEN <<>> ELSE ixs[1])
                              ELSE Fold([i \in DOMAIN counted |-> ixs[counted[i]]], 1, <<>>, m.m, o)
    IN  CASE m.m = "keep" -> OwnIx
          [] base = NoIx -> base
          [] base = <<>> -> Plain(len)
          [] len > ILen(base) -> IF m.m = "strict" \/ ILen(base) > 1 THEN NoIx ELSE RepIx(base, len)
          [] OTHER -> base
Refused == [ok |-> FALSE]
(* a series' name: an index with a single row and nameless levels *)
NameIx(cx) == IF ILen(cx) # 1 THEN Plain(1) ELSE [l \in DOMAIN cx |-> [n |-> "", v |-> cx[l].v]]
Stretch(ix, n) == IF ILen(ix) = n THEN ix ELSE RepIx(ix, n)
Take(a, rp, cp) == [a EXCEPT !.r = Len(rp), !.c = Len(cp), !.ix = Sub(a.ix, rp), !.cx = IF a.k = "sr" THEN a.cx ELSE Sub(a.cx, cp),
                             !.v = [x \in 1..(Len(rp) * Len(cp)) |-> a.v[(rp[((x - 1) \div Len(cp)) + 1] - 1) * a.c + cp[((x - 1) % Len(cp)) + 1]]]]
Ids(n) == [i \in 1..n |-> i]
(* o: [im, cm, dup, keep, red, ign, to, pd, raw, ai, ac, fr] ; to = target shape or <<>>, pd = "", "y", "n"; raw[i] keeps input i unbroadcast *)
AlignAxis(args, axis) ==
    LET who == SelectSeq(Ids(Len(args)), LAMBDA i : (IF axis = 0 THEN Pd(args[i]) ELSE args[i].k = "fr") /\ ILen(AxIx(args[i], axis)) > 1)
        ixs == [i \in DOMAIN who |-> AxIx(args[who[i]], axis)]
        pos == AlignAll(ixs)
        At(i) == CHOOSE u \in DOMAIN who : who[u] = i
    IN  IF Len(who) < 2 \/ Cardinality({ILen(ixs[u]) : u \in DOMAIN ixs}) = 1 THEN args
        ELSE IF pos = <<>> THEN <<>>
        ELSE [i \in DOMAIN args |-> IF i \in Rng(who)
                THEN (IF axis = 0 THEN Take(args[i], pos[At(i)], Ids(args[i].c)) ELSE Take(args[i], Ids(args[i].r), pos[At(i)])) ELSE args[i]]
Broadcast(args0, o) ==
    LET a1 == IF o.ai THEN AlignAxis(args0, 0) ELSE args0
        args == IF a1 = <<>> THEN <<>> ELSE IF o.ac THEN AlignAxis(a1, 1) ELSE a1
        two == o.fr \/ (\E i \in DOMAIN args : Nd(args[i]) = 2) \/ Len(o.to) = 2
        nd == IF two THEN 2 ELSE 1
        dims == [d \in 1..nd |-> Dim([i \in DOMAIN args |-> Shape(args[i], two)[d]])]
        sh == IF o.to = <<>> THEN dims ELSE o.to
        fits == Len(sh) = nd /\ \A d \in 1..nd : dims[d] # 0 /\ dims[d] \in {1, sh[d]}
        pd == IF o.pd = "" THEN \E i \in DOMAIN args : Pd(args[i]) ELSE o.pd = "y"
        ix == NewIx(args, sh[1], 0, o.im, o)
        cx == NewIx(args, IF two THEN sh[2] ELSE 1, 1, o.cm, o)
        rows == sh[1]
        cols == IF two THEN sh[2] ELSE 1
        Own(a) == [ix |-> IF ix = OwnIx THEN (IF Pd(a) THEN Stretch(a.ix, rows) ELSE Plain(rows)) ELSE ix,
                   cx |-> LET c == IF cx = OwnIx THEN (IF Pd(a) THEN Stretch(a.cx, cols) ELSE Plain(cols)) ELSE cx
                          IN  IF two THEN c ELSE NameIx(c)]
        Res(i) == LET a == args[i] w == Own(a) IN
            [k |-> IF ~pd THEN "np" ELSE IF two THEN "fr" ELSE "sr", r |-> rows, c |-> cols,
             v |-> [x \in 1..(rows * cols) |-> El(a, ((x - 1) \div cols) + 1, ((x - 1) % cols) + 1, two)],
             ix |-> IF pd THEN w.ix ELSE <<>>, cx |-> IF pd THEN w.cx ELSE <<>>]
    IN  IF args = <<>> THEN Refused
        ELSE IF ~fits THEN Refused
        ELSE IF pd /\ (ix = NoIx \/ cx = NoIx) THEN Refused
        ELSE IF pd /\ ix # OwnIx /\ ILen(ix) # rows THEN Refused
        ELSE IF pd /\ two /\ cx # OwnIx /\ ILen(cx) # cols THEN Refused
        ELSE [ok |-> TRUE, two |-> two, res |-> [i \in DOMAIN args |-> Res(i)]]
----------------------------------------------------------------------------
(* repeat and tile along an axis; the input of axis 1 becomes a frame *)
Lay(a, n, axis, How(_, _), HowIx(_, _)) ==
    LET rp == IF axis = 0 THEN How(Ids(a.r), n) ELSE Ids(a.r)
        cp == IF axis = 1 THEN How(Ids(a.c), n) ELSE Ids(a.c)
        b == Take(a, rp, cp)
    IN  [k |-> IF a.k = "sr" /\ axis = 1 THEN "fr" ELSE a.k, r |-> Len(rp), c |-> Len(cp), v |-> b.v,
         ix |-> IF axis = 0 THEN HowIx(a.ix, n) ELSE a.ix, cx |-> IF axis = 1 THEN HowIx(a.cx, n) ELSE a.cx]
(* a series over a two-level index as a table *)
Levels(ix, ls, i) == [l \in DOMAIN ls |-> ix[ls[l]].v[i]]
(* the table's cells as a set of <<row label, column label, value>>, NaN for the missing *)
Unstack(ix, v, il, cl) ==
    LET rows == {Levels(ix, il, i) : i \in 1..ILen(ix)}
        cols == {Levels(ix, cl, i) : i \in 1..ILen(ix)}
    IN  {<<y, x, IF \E i \in 1..ILen(ix) : Levels(ix, il, i) = y /\ Levels(ix, cl, i) = x
                 THEN v[CHOOSE i \in 1..ILen(ix) : Levels(ix, il, i) = y /\ Levels(ix, cl, i) = x] ELSE "nan">> : y \in rows, x \in cols}
(* a table of cells made symmetric: its own cell first, then the mirrored one *)
Symmetric(rl, cl, v) ==
    LET ls == Rng(rl) \union Rng(cl)
        Cell(y, x) == IF y \in Rng(rl) /\ x \in Rng(cl)
                      THEN v[((CHOOSE i \in DOMAIN rl : rl[i] = y) - 1) * Len(cl) + (CHOOSE j \in DOMAIN cl : cl[j] = x)] ELSE "nan"
    IN  {<<y, x, IF Cell(y, x) # "nan" THEN Cell(y, x) ELSE Cell(x, y)>> : y \in ls, x \in ls}
=============================================================================
