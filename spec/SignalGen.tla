------------------------------ MODULE SignalGen -----------------------------
(* Generation of signals by choice functions.  Bars are counted from 0.  A      *)
(* chooser is a record; Chosen(ch, from, to) are the bars it picks among        *)
(* from .. to - 1, in order.                                                    *)
EXTENDS SignalSeq, Num
Upto(lo, hi) == [i \in 1..(IF hi > lo THEN hi - lo ELSE 0) |-> lo + i - 1]
One(s, pickFirst) == IF pickFirst /\ s # <<>> THEN <<s[1]>> ELSE s
Range(s) == {s[i] : i \in 1..Len(s)}
(* windows *)
ExFrom(ws, k, wait) == ws[k] + wait
ExTo(ws, k, untilNext, n) == IF untilNext /\ k < Len(ws) THEN ws[k + 1] ELSE n
(* what is placed of what was chosen: an error when out of bounds *)
Placed(idxs, pickFirst, lo, hi) ==
    LET s == One(idxs, pickFirst) IN
    IF s = <<>> THEN [err |-> FALSE, s |-> <<>>]
    ELSE [err |-> \E i \in 1..Len(s) : s[i] < lo \/ s[i] >= hi, s |-> s]
(* levels of a plain stop *)
RECURSIVE LeastOf(_, _), MostOf(_, _)
LeastOf(acc, s) == IF s = <<>> THEN acc ELSE LeastOf(IF NLt(Head(s), acc) THEN Head(s) ELSE acc, Tail(s))
MostOf(acc, s) == IF s = <<>> THEN acc ELSE MostOf(IF NGt(Head(s), acc) THEN Head(s) ELSE acc, Tail(s))
Some(a, lo, hi) == [i \in 1..(IF hi > lo THEN hi - lo ELSE 0) |-> Bar(a, lo + i - 1)]
Up(p, s) == NMul(p, NAdd("1", s))
Down(p, s) == NMul(p, NSub("1", s))
StopHit(ch, from, i) ==
    LET e == from - ch.wait base == Bar(ch.ts, e) s == Bar(ch.stop, e)
        past == Some(ch.ts, from, i)
        level == IF ~Bar(ch.trailing, e) THEN Up(base, s)
                 ELSE IF NGe(s, "0") THEN Up(LeastOf(base, past), s) ELSE Down(MostOf(base, past), NAbs(s))
    IN ~NIsNaN(s) /\ IF NGe(s, "0") THEN NGe(Bar(ch.ts, i), level) ELSE NLe(Bar(ch.ts, i), level)
(* the bars of the whole-bar stops; at the entry bar itself only the close counts unless the open is safe *)
OpenOf(ch, i) == IF NIsNaN(Bar(ch.open, i)) THEN Bar(ch.close, i) ELSE Bar(ch.open, i)
HighOf(ch, e, i) == IF i = e /\ ~ch.safe THEN Bar(ch.close, i) ELSE IF NIsNaN(Bar(ch.high, i)) THEN NMax(OpenOf(ch, i), Bar(ch.close, i)) ELSE Bar(ch.high, i)
LowOf(ch, e, i) == IF i = e /\ ~ch.safe THEN Bar(ch.close, i) ELSE IF NIsNaN(Bar(ch.low, i)) THEN NMin(OpenOf(ch, i), Bar(ch.close, i)) ELSE Bar(ch.low, i)
Ohlc(ch, from, i) ==
    LET e == from - ch.wait base == Bar(ch.open, e) sl == Bar(ch.sl, e) tp == Bar(ch.tp, e) rev == Bar(ch.reverse, e)
        hi == MostOf(base, [j \in 1..(i - from) |-> HighOf(ch, e, from + j - 1)])
        lo == LeastOf(base, [j \in 1..(i - from) |-> LowOf(ch, e, from + j - 1)])
        trail == Bar(ch.trail, e)
        slevel == IF rev THEN Up(IF trail THEN lo ELSE base, sl) ELSE Down(IF trail THEN hi ELSE base, sl)
        tlevel == IF rev THEN Down(base, tp) ELSE Up(base, tp)
        slhit == ~NIsNaN(sl) /\ IF rev THEN NGe(HighOf(ch, e, i), slevel) ELSE NLe(LowOf(ch, e, i), slevel)
        tphit == ~NIsNaN(tp) /\ IF rev THEN NLe(LowOf(ch, e, i), tlevel) ELSE NGe(HighOf(ch, e, i), tlevel)
    IN IF slhit THEN [hit |-> TRUE, price |-> slevel, type |-> IF trail THEN 1 ELSE 0] ELSE [hit |-> tphit, price |-> tlevel, type |-> 2]
(* an arbitrary function of the user, which depends on the side, the column and the parameters it was handed *)
Bit(ch, i) == (7 * i * i + 3 * ch.s + 2 * ch.col + 4 * ch.side) % 5 < 2
Chosen(ch, from, to) ==
    LET bars == Upto(from, to)
        all == CASE ch.kind \in {"first", "observed"} -> One(SelectSeq(bars, LAMBDA i : Bar(ch.a, i)), TRUE)
                 [] ch.kind = "hash" -> SelectSeq(bars, LAMBDA i : Bit(ch, i))
                 [] ch.kind = "prob" -> SelectSeq(bars, LAMBDA i : NGe(Bar(ch.prob, i), "1"))
                 [] ch.kind = "stop" -> SelectSeq(bars, LAMBDA i : StopHit(ch, from, i))
                 [] ch.kind = "ohlc" -> SelectSeq(bars, LAMBDA i : Ohlc(ch, from, i).hit)
    IN One(all, ch.first)
(* exits after entries: a sequence of calls <<from, to, bars>> *)
RECURSIVE Exits(_, _, _, _, _, _)
Exits(o, ws, k, last, ch, n) ==
    IF k > Len(ws) THEN <<>>
    ELSE IF o.skip /\ ws[k] <= last THEN Exits(o, ws, k + 1, last, ch, n)
    ELSE LET lo == ExFrom(ws, k, o.wait) hi == ExTo(ws, k, o.until, n) IN
         IF hi <= lo THEN Exits(o, ws, k + 1, last, ch, n)
         ELSE LET s == One(Chosen(ch, lo, hi), o.first) IN
              <<<<lo, hi, s>>>> \o Exits(o, ws, k + 1, IF s = <<>> THEN last ELSE s[Len(s)], ch, n)
(* entries and exits in turn: calls <<side, from, to, bars>>, side 0 for entries *)
RECURSIVE Turns(_, _, _, _, _, _)
Turns(o, t, prev, en, ex, n) ==
    LET lo == IF t = 0 THEN 0 ELSE prev + (IF t % 2 = 0 THEN o.ewait ELSE o.xwait) IN
    IF lo >= n THEN <<>>
    ELSE LET s == One(Chosen(IF t % 2 = 0 THEN en ELSE ex, lo, n), IF t % 2 = 0 THEN o.efirst ELSE o.xfirst) IN
         IF s = <<>> THEN <<<<t % 2, lo, n, s>>>>
         ELSE <<<<t % 2, lo, n, s>>>> \o Turns(o, t + 1, s[Len(s)], en, ex, n)
ToArray(S, n) == [i \in 1..n |-> (i - 1) \in S]
ExitsOf(calls) == UNION {Range(calls[i][3]) : i \in 1..Len(calls)}
SideOf(calls, side) == UNION {Range(calls[i][4]) : i \in {j \in 1..Len(calls) : calls[j][1] = side}}
(* a generator of the user: o.modes names what it makes, o.ef / o.xf say what its functions are given: inputs, in-place  *)
(* outputs (one set for every combination), parameters, positional arguments, further arguments by name and the cache     *)
FnOf(o, side) == IF side = 0 THEN o.ef ELSE o.xf
At(names, x) == CHOOSE i \in 1..Len(names) : names[i] = x
RECURSIVE SumUp(_), Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
SumUp(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumUp(Tail(s))
Handed(o, f, k) == [i \in 1..Len(f.params) |-> o.combos[k][At(o.pnames, f.params[i])]]
BuiltIn(o, name) ==
    CASE name = "wait" -> "1" [] name = "until_next" -> "True" [] name = "skip_until_exit" -> "False"
      [] name = "pick_first" -> IF o.mode = "entries" THEN "False" ELSE "True"
      [] name = "input_shape" -> o.shape [] name = "flex_2d" -> o.flex [] OTHER -> "?"
More(o, f, m) ==
    LET S == {i \in 1..Len(f.given) : f.given[i][1] = m.name} IN
    IF S # {} THEN f.given[CHOOSE i \in S : TRUE][2]
    ELSE IF BuiltIn(o, m.name) # "?" THEN BuiltIn(o, m.name)
    ELSE IF m.default # "?" THEN m.default
    ELSE IF m.temp THEN o.temp ELSE "None"
ArgsFor(o, f, ins) == ins \o f.args \o [i \in 1..Len(f.more) |-> More(o, f, f.more[i])]
Told(o, side, k) ==
    LET f == FnOf(o, side) IN
    ArgsFor(o, f, f.inputs \o f.outs \o [i \in 1..Len(f.params) |-> ToString(Handed(o, f, k)[i])]) \o (IF f.cache THEN o.cached ELSE <<>>)
(* the cache function sees the parameters and in-place outputs of all combinations at once *)
ToldCache(o) ==
    LET f == o.cf IN
    ArgsFor(o, f, f.inputs \o [i \in 1..Len(f.outs) |-> f.outs[i] \o " x" \o ToString(Len(o.combos))]
        \o [i \in 1..Len(f.params) |-> ToString([k \in 1..Len(o.combos) |-> o.combos[k][At(o.pnames, f.params[i])]])])
Opt(o, side, name, d) ==
    LET f == FnOf(o, side) S == {i \in 1..Len(f.given) : f.given[i][1] = name} IN
    IF S # {} THEN f.given[CHOOSE i \in S : TRUE][2] ELSE d
IsTrue(x) == x = "True"
IntOf(x) == CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2
Choice(o, side, k, col) ==
    IF side = 0 /\ o.plain THEN [kind |-> "first", a |-> o.en[col], first |-> TRUE]
    ELSE [kind |-> "hash", s |-> SumUp(Handed(o, FnOf(o, side), k)), col |-> col - 1, side |-> side, first |-> FALSE]
(* calls of one combination on one column: <<side, from, to, bars placed>> *)
CallsOf(o, k, col) ==
    LET en == Choice(o, 0, k, col) ex == Choice(o, 1, k, col) n == o.n
        pf(side) == IsTrue(Opt(o, side, "pick_first", IF o.mode = "entries" THEN "False" ELSE "True"))
        w(side) == IntOf(Opt(o, side, "wait", "1"))
    IN CASE o.mode = "entries" -> <<<<0, 0, n, One(Chosen(en, 0, n), pf(0))>>>>
         [] o.mode = "exits" ->
              LET cs == Exits([wait |-> w(1), until |-> IsTrue(Opt(o, 1, "until_next", "True")), skip |-> IsTrue(Opt(o, 1, "skip_until_exit", "False")), first |-> pf(1)],
                              Where(o.en[col]), 1, -1, ex, n)
              IN [i \in 1..Len(cs) |-> <<1>> \o cs[i]]
         [] OTHER -> Turns([ewait |-> w(0), xwait |-> w(1), efirst |-> pf(0), xfirst |-> pf(1)], 0, -1, en, ex, n)
RECURSIVE Written(_, _, _, _, _, _, _)
Written(o, calls, j, k, col, i, v) ==
    IF calls = <<>> THEN v
    ELSE LET cl == Head(calls) side == cl[1] f == FnOf(o, side) ch == Choice(o, side, k, col) IN
         Written(o, Tail(calls), j, k, col, i,
                 IF \E x \in 1..Len(f.outs) : f.outs[x] = o.onames[j] /\ ~(side = 0 /\ o.plain) /\ i \in Range(Chosen(ch, cl[2], cl[3]))
                 THEN 0 - j - 100 * (1 + i + 50 * side + ch.s) ELSE v)
=============================================================================
