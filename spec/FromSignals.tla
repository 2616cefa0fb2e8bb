---------------------------- MODULE FromSignals ----------------------------
(* Simulation from signals, with stops.                                       *)
(*                                                                            *)
(* A program has, besides the fields of FromOrders, for bar i and column c:   *)
(*   kind           "dir" (en, ex, sdir), "ls" (le, lx, se, sx)               *)
(*   acc            "Disabled", "Both", "AddOnly", "RemoveOnly"               *)
(*   lconf, sconf   "Ignore", "Entry", "Exit", "Adjacent", "Opposite"         *)
(*   dconf          "Ignore", "Long", "Short", "Adjacent", "Opposite"         *)
(*   opp            "Ignore", "Close", "CloseReduce", "Reverse", "ReverseReduce" *)
(*   open, high, low, sl, trail, tp, sep, sxp, usx, usu and stops (a flag)    *)
(* The state of FromOrders is extended with stop[c] =                         *)
(*   [sl, trail, ref, refi, si, sp, tp, tpref, tpi].                          *)
EXTENDS FromOrders

NoStop == [sl |-> "nan", trail |-> FALSE, ref |-> "nan", refi |-> 0 - 1, si |-> 0 - 1, sp |-> "nan",
           tp |-> "nan", tpref |-> "nan", tpi |-> 0 - 1]

---------------------------------------------------------------------------
(* 1. Signals                                                                 *)
Sig(le, lx, se, sx) == [le |-> le, lx |-> lx, se |-> se, sx |-> sx]

(* what the bar's own arrays say *)
OwnSignals(pr, i, c) ==
    IF pr.kind = "dir"
    THEN CASE pr.sdir[i][c] = "LongOnly"  -> Sig(pr.en[i][c], pr.ex[i][c], FALSE, FALSE)
           [] pr.sdir[i][c] = "ShortOnly" -> Sig(FALSE, FALSE, pr.en[i][c], pr.ex[i][c])
           [] pr.sdir[i][c] = "Both"      -> Sig(pr.en[i][c], FALSE, pr.ex[i][c], FALSE)
    ELSE Sig(pr.le[i][c], pr.lx[i][c], pr.se[i][c], pr.sx[i][c])

(* which of a simultaneous entry and exit survive: adjacent is the one that continues the position, opposite the
   one that works against it; both need a position *)
Clash(inpos, mode) == CASE mode = "Ignore" -> <<FALSE, FALSE>>
                        [] mode = "Entry"  -> <<TRUE, FALSE>>
                        [] mode = "Exit"   -> <<FALSE, TRUE>>
                        [] mode = "Adjacent" -> <<inpos, FALSE>>
                        [] mode = "Opposite" -> <<FALSE, inpos>>
(* which of a simultaneous long and short entry survive *)
DirClash(sg, mode) == CASE mode = "Ignore" -> <<FALSE, FALSE>>
                        [] mode = "Long"   -> <<TRUE, FALSE>>
                        [] mode = "Short"  -> <<FALSE, TRUE>>
                        [] mode = "Adjacent" -> <<sg > 0, sg < 0>>
                        [] mode = "Opposite" -> <<sg < 0, sg > 0>>

(* signals and accumulation after resolving conflicts; sg is the sign of the position *)
Resolved(sg, b, acc, lconf, sconf, dconf, opp) ==
    IF ~b.le /\ ~b.se THEN [b |-> b, acc |-> acc]
    ELSE LET l == IF b.le /\ b.lx THEN Clash(sg # 0, lconf) ELSE <<b.le, b.lx>>
             s == IF b.se /\ b.sx THEN Clash(sg # 0, sconf) ELSE <<b.se, b.sx>>
             d == IF l[1] /\ s[1] THEN DirClash(sg, dconf) ELSE <<l[1], s[1]>>
             against == (sg > 0 /\ d[2]) \/ (sg < 0 /\ d[1])
             keep == opp \in {"Reverse", "ReverseReduce"}
             close == opp \in {"Close", "CloseReduce"}
         IN IF ~against THEN [b |-> Sig(d[1], l[2], d[2], s[2]), acc |-> acc]
            ELSE [b |-> IF sg > 0 THEN Sig(d[1], l[2] \/ close, keep, s[2])
                        ELSE Sig(keep, l[2], d[2], s[2] \/ close),
                  acc |-> IF opp \in {"Close", "Reverse"} THEN "Disabled" ELSE acc]

(* what a stop does to a position *)
StopSignals(sg, mode, acc) ==
    LET exit == mode \in {"Close", "CloseReduce"} IN
    [b |-> IF sg > 0 THEN Sig(FALSE, exit, ~exit, FALSE) ELSE IF sg < 0 THEN Sig(~exit, FALSE, FALSE, exit)
           ELSE Sig(FALSE, FALSE, FALSE, FALSE),
     acc |-> IF mode \in {"Close", "Reverse"} THEN "Disabled" ELSE acc]

---------------------------------------------------------------------------
(* 2. From signals to the request: [ask, why] or [size, stype, dir]           *)
Ask(size, stype, dir) == [ask |-> "order", size |-> size, stype |-> stype, dir |-> dir]
NoAsk == [ask |-> "none"]
BadAsk == [ask |-> "error"]
Removes(acc) == acc \in {"Both", "RemoveOnly"}
Adds(acc) == acc \in {"Both", "AddOnly"}
Request(pos, b, acc, size, stype, vp) ==
    LET sg == NSgn(pos)
        mag == NAbs(pos)
        amt == IF stype = "Value" THEN NDiv(size, vp) ELSE size
        against == (sg > 0 /\ b.se) \/ (sg < 0 /\ b.le)
        exit == (sg > 0 /\ b.lx) \/ (sg < 0 /\ b.sx)
        more == (sg > 0 /\ b.le) \/ (sg < 0 /\ b.se)
        dir == IF sg > 0 THEN "LongOnly" ELSE "ShortOnly"
    IN IF stype \notin {"Amount", "Value", "Percent"} \/ NLt(size, "0") THEN BadAsk
       ELSE IF sg = 0
            THEN IF b.le THEN Ask(size, stype, "Both") ELSE IF b.se THEN Ask(NNeg(size), stype, "Both") ELSE NoAsk
       ELSE IF against
            THEN IF Removes(acc) THEN Ask(IF sg > 0 THEN NNeg(size) ELSE size, stype, "Both")
                 ELSE IF NIsNaN(size) THEN Ask(IF sg > 0 THEN NNeg(mag) ELSE mag, "Amount", "Both")
                 ELSE IF stype = "Percent" THEN BadAsk
                 ELSE Ask(IF sg > 0 THEN NNeg(NAdd(mag, amt)) ELSE NAdd(mag, amt), "Amount", "Both")
       ELSE IF exit
            THEN IF Removes(acc) THEN Ask(NNeg(size), stype, dir) ELSE Ask(NNeg(mag), "Amount", dir)
       ELSE IF more THEN IF Adds(acc) THEN Ask(size, stype, dir) ELSE NoAsk
       ELSE NoAsk

---------------------------------------------------------------------------
(* 3. Stops                                                                   *)
(* outcomes of a <= b where rounding may decide either way *)
Cmp(a, b) == IF NIsNaN(a) \/ NIsNaN(b) THEN {FALSE}
             ELSE {NLe(a, b)} \cup (IF ~NEq(a, b) /\ NNear(a, b, "1/1000000000000", "1/1000000000000") THEN {TRUE, FALSE} ELSE {})
(* the bar a stop sees *)
Open(pr, i, c) == IF NIsNaN(pr.open[i][c]) THEN pr.close[i][c] ELSE pr.open[i][c]
Low(pr, i, c) == IF NIsNaN(pr.low[i][c]) THEN (IF NIsNaN(pr.close[i][c]) THEN Open(pr, i, c) ELSE NMin(Open(pr, i, c), pr.close[i][c])) ELSE pr.low[i][c]
High(pr, i, c) == IF NIsNaN(pr.high[i][c]) THEN (IF NIsNaN(pr.close[i][c]) THEN Open(pr, i, c) ELSE NMax(Open(pr, i, c), pr.close[i][c])) ELSE pr.high[i][c]

(* price at which a level is reached within a bar ("nan": not reached); the level is below or above *)
Reach(level, below, o, l, h) ==
    UNION { IF gap THEN {o} ELSE { IF a /\ z THEN level ELSE "nan" : a \in Cmp(l, level), z \in Cmp(level, h) }
          : gap \in IF below THEN Cmp(o, level) ELSE Cmp(level, o) }
SlLevel(sg, st) == IF sg > 0 THEN NMul(st.ref, NSub(One, st.sl)) ELSE NMul(st.ref, NAdd(One, st.sl))
TpLevel(sg, st) == IF sg > 0 THEN NMul(st.tpref, NAdd(One, st.tp)) ELSE NMul(st.tpref, NSub(One, st.tp))
(* possible stop prices of column c at bar i: stop loss first *)
StopPrice(pr, i, c, sg, st) ==
    IF ~pr.stops \/ sg = 0 THEN {"nan"}
    ELSE LET o == Open(pr, i, c) l == Low(pr, i, c) h == High(pr, i, c) IN
         UNION { IF ~NIsNaN(p) THEN {p}
                 ELSE IF NIsNaN(st.tp) THEN {"nan"} ELSE Reach(TpLevel(sg, st), sg < 0, o, l, h)
               : p \in IF NIsNaN(st.sl) THEN {"nan"} ELSE Reach(SlLevel(sg, st), sg > 0, o, l, h) }
(* the reference of a trailing stop after the bar *)
Trail(pr, i, c, sg, st) ==
    IF NIsNaN(st.sl) \/ ~st.trail \/ sg = 0 THEN st
    ELSE IF sg > 0 /\ NGt(High(pr, i, c), st.ref) THEN [st EXCEPT !.ref = High(pr, i, c), !.refi = i - 1]
    ELSE IF sg < 0 /\ NLt(Low(pr, i, c), st.ref) THEN [st EXCEPT !.ref = Low(pr, i, c), !.refi = i - 1]
    ELSE st
(* price and slippage of the request *)
ExitPrice(pr, i, c, stop, price) ==
    CASE pr.sxp[i][c] = "StopLimit"  -> <<stop, "0">>
      [] pr.sxp[i][c] = "StopMarket" -> <<stop, pr.slip[i][c]>>
      [] pr.sxp[i][c] = "Close"      -> <<pr.close[i][c], pr.slip[i][c]>>
      [] pr.sxp[i][c] = "Price"      -> <<price, pr.slip[i][c]>>

(* stops after a filled order *)
NewStop(pr, i, c, st, before, o, oc, vp) ==
    LET ini == CASE pr.sep[i][c] = "ValPrice"  -> vp
                 [] pr.sep[i][c] = "Price"     -> o.price
                 [] pr.sep[i][c] = "FillPrice" -> oc.price
                 [] pr.sep[i][c] = "Close"     -> pr.close[i][c]
        sl(x) == [x EXCEPT !.sl = pr.sl[i][c], !.trail = pr.trail[i][c], !.ref = ini, !.refi = i - 1, !.si = i - 1, !.sp = ini]
        tp(x) == [x EXCEPT !.tp = pr.tp[i][c], !.tpref = ini, !.tpi = i - 1]
        up(v) == pr.usu[i][c] = "OverrideNaN" \/ (pr.usu[i][c] = "Override" /\ ~NIsNaN(v))
    IN IF ~pr.stops THEN st
       ELSE IF NEq(oc.pos, "0") THEN NoStop
       ELSE IF NSgn(oc.pos) # NSgn(before) THEN sl(tp(st))
       ELSE IF NGt(NAbs(oc.pos), NAbs(before))
            THEN LET a == IF up(pr.sl[i][c]) THEN sl(st) ELSE st IN IF up(pr.tp[i][c]) THEN tp(a) ELSE a
       ELSE st

---------------------------------------------------------------------------
(* 4. Prices                                                                  *)
SigPrice(pr, i, c) ==
    LET p == pr.price[i][c] IN
    IF p = "inf" THEN pr.close[i][c]
    ELSE IF p = "-inf" THEN (IF ~NIsNaN(pr.open[i][c]) THEN pr.open[i][c] ELSE IF i > 1 THEN pr.close[i - 1][c] ELSE "nan")
    ELSE p
SigValPrice(pr, i, c) ==
    LET p == pr.vp[i][c] IN
    IF p = "inf" THEN SigPrice(pr, i, c)
    ELSE IF p = "-inf" THEN (IF i > 1 THEN pr.close[i - 1][c] ELSE "nan")
    ELSE p
SigOpenBar(pr, s) ==
    LET v(c) == SigValPrice(pr, s.i, c)
        l == [c \in 1..Len(s.lvp) |->
                 IF c \in Cols(pr, s.g) /\ (~NIsNaN(v(c)) \/ ~pr.ffill) THEN v(c) ELSE s.lvp[c]]
        s1 == [s EXCEPT !.lvp = l]
    IN [s1 EXCEPT !.val = IF pr.sharing THEN Total(s1, pr.from[s.g], pr.to[s.g]) ELSE "nan", !.act = TRUE, !.done = <<>>]

(* the possible decisions of column c at bar i, given its stop st (already adjusted), own signals b *)
Decide(pr, s, c, st, b) ==
    LET i == s.i
        sg == NSgn(s.pos[c])
        own == Resolved(sg, b, pr.acc[i][c], pr.lconf[i][c], pr.sconf[i][c], pr.dconf[i][c], pr.opp[i][c])
        price == SigPrice(pr, i, c)
        full(r, px) ==
            IF r.ask # "order" THEN [ask |-> r.ask, stop |-> "nan"]
            ELSE IF NEq(r.size, "0") THEN [ask |-> "none", stop |-> "nan"]
            ELSE [ask |-> "order",
                  o |-> [size |-> r.size, stype |-> r.stype, dir |-> r.dir, price |-> px[1], slip |-> px[2],
                         fees |-> pr.fees[i][c], ffees |-> pr.ffees[i][c], minsz |-> pr.minsz[i][c],
                         maxsz |-> pr.maxsz[i][c], gran |-> pr.gran[i][c], rp |-> pr.rp[i][c],
                         lock |-> pr.lock[i][c], partial |-> pr.partial[i][c]]]
    IN { IF NIsNaN(sp)
         THEN [d |-> full(Request(s.pos[c], own.b, own.acc, pr.size[i][c], pr.stype[i][c], s.lvp[c]),
                          <<price, pr.slip[i][c]>>), hit |-> FALSE]
         ELSE LET x == StopSignals(sg, pr.usx[i][c], pr.acc[i][c])
              IN [d |-> full(Request(s.pos[c], x.b, x.acc, pr.size[i][c], pr.stype[i][c], s.lvp[c]),
                             ExitPrice(pr, i, c, sp, price)), hit |-> TRUE]
       : sp \in StopPrice(pr, i, c, sg, st) }

(* approximate value of a request for the automatic sequence *)
AskValue(pr, s, c, d) ==
    IF d.ask # "order" THEN "0"
    ELSE LET o == d.o
             sz == IF o.dir = "ShortOnly" THEN NNeg(o.size) ELSE o.size
             av == NMul(s.pos[c], s.lvp[c])
         IN CASE o.stype = "Amount" -> NMul(sz, s.lvp[c])
              [] o.stype = "Value" -> sz
              [] o.stype = "Percent" -> IF NGe(sz, "0") \/ NIsNaN(sz) THEN NMul(sz, s.cash)
                                        ELSE IF o.dir = "LongOnly" THEN NMul(sz, av)
                                        ELSE IF NIsNaN(av) THEN "?"
                                        ELSE NMul(sz, NAdd(NMul(2, MaxL(av)), MaxL(s.free)))
SigStart(pr) == [x \in DOMAIN Start(pr) \cup {"stop"} |->
                    IF x = "stop" THEN [c \in 1..pr.n |-> NoStop] ELSE Start(pr)[x]]
=============================================================================
