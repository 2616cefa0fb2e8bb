----------------------------- MODULE FromOrders -----------------------------
(* Simulation from arrays of orders.                                          *)
(*                                                                            *)
(* A program pr fixes, for bar i and column c (both from 1), what is asked:   *)
(*   pr.close[i][c], pr.size[i][c], pr.price[i][c], pr.vp[i][c], ...          *)
(* and pr.from[g], pr.to[g] (columns of cash group g), pr.sharing, pr.auto,   *)
(* pr.ffill, pr.upd, pr.init[g], pr.seq[i][c] (call sequence, from 0).        *)
(* A state s is [g, i, done, cash, free, pos, debt, lvp, val, act]: group and *)
(* bar being processed, columns already processed in this bar (a sequence),   *)
(* cash and free cash of the group, and per column position, debt, valuation  *)
(* price; val is the value of the group; act says that the bar has been       *)
(* opened (prices resolved and valued).                                       *)
EXTENDS OrderExec, FiniteSets

OrderPrice(pr, i, c) ==
    LET p == pr.price[i][c] IN
    IF p = "inf" THEN pr.close[i][c]
    ELSE IF p = "-inf" THEN (IF i > 1 THEN pr.close[i - 1][c] ELSE "nan")
    ELSE p
ValPrice(pr, i, c) ==
    LET p == pr.vp[i][c] IN
    IF p = "inf" THEN OrderPrice(pr, i, c)
    ELSE IF p = "-inf" THEN (IF i > 1 THEN pr.close[i - 1][c] ELSE "nan")
    ELSE p
OrderAt(pr, i, c) ==
    [size |-> pr.size[i][c], stype |-> pr.stype[i][c], dir |-> pr.dir[i][c], price |-> OrderPrice(pr, i, c),
     fees |-> pr.fees[i][c], ffees |-> pr.ffees[i][c], slip |-> pr.slip[i][c], minsz |-> pr.minsz[i][c],
     maxsz |-> pr.maxsz[i][c], gran |-> pr.gran[i][c], rp |-> pr.rp[i][c], lock |-> pr.lock[i][c],
     partial |-> pr.partial[i][c]]

Cols(pr, g) == pr.from[g]..pr.to[g]
Held(s, c) == IF NEq(s.pos[c], "0") THEN "0" ELSE NMul(s.pos[c], s.lvp[c])
RECURSIVE Total(_, _, _)
Total(s, c, to) == IF c > to THEN s.cash ELSE NAdd(Held(s, c), Total(s, c + 1, to))

(* Open the bar: resolve valuation prices of the group's columns and value it *)
OpenBar(pr, s) ==
    LET v(c) == ValPrice(pr, s.i, c)
        l == [c \in 1..Len(s.lvp) |->
                 IF c \in Cols(pr, s.g) /\ (~NIsNaN(v(c)) \/ ~pr.ffill) THEN v(c) ELSE s.lvp[c]]
        s1 == [s EXCEPT !.lvp = l]
    IN [s1 EXCEPT !.val = IF pr.sharing THEN Total(s1, pr.from[s.g], pr.to[s.g]) ELSE "nan", !.act = TRUE, !.done = <<>>]

(* Approximate value of the order of column c, for the automatic sequence *)
ApproxOf(stype, dir, size, cash, free, pos, vp, val) ==
    LET sz == IF dir = "ShortOnly" THEN NNeg(size) ELSE size
        av == NMul(pos, vp)
    IN CASE stype = "Amount" -> NMul(sz, vp)
         [] stype = "Value" -> sz
         [] stype = "Percent" -> IF NGe(sz, "0") THEN NMul(sz, cash)
                                   ELSE IF dir = "LongOnly" THEN NMul(sz, av)
                                   ELSE IF NIsNaN(av) THEN "?" (* unknown valuation: anywhere in the sequence *)
                                   ELSE NMul(sz, NAdd(NMul(2, MaxL(av)), MaxL(free)))
         [] stype = "TargetAmount" -> NSub(NMul(sz, vp), av)
         [] stype = "TargetValue" -> NSub(sz, av)
         [] stype = "TargetPercent" -> NSub(NMul(sz, val), av)
ApproxValue(pr, s, c) ==
    LET o == OrderAt(pr, s.i, c) IN ApproxOf(o.stype, o.dir, o.size, s.cash, s.free, s.pos[c], s.lvp[c], s.val)

(* b may come right after a in ascending order, missing values last *)
MayFollow(a, b) == IF a = "?" \/ b = "?" THEN TRUE
                   ELSE IF NIsNaN(a) THEN NIsNaN(b)
                   ELSE NIsNaN(b) \/ NLe(a, b) \/ NNear(a, b, "1/10000000000", "1/10000000000")

InSeq(q, c) == \E j \in 1..Len(q) : q[j] = c
(* columns that may be processed next; av is the vector of approximate order values when the bar opened *)
NextCols(pr, s, av) ==
    LET left == {c \in Cols(pr, s.g) : ~InSeq(s.done, c)} IN
    IF ~pr.sharing THEN left
    ELSE IF pr.auto THEN {c \in left : \A d \in left : MayFollow(av[c], av[d])}
    ELSE {pr.from[s.g] + pr.seq[s.i][pr.from[s.g] + Len(s.done)]}

(* The account column c sees *)
Account(pr, s, c) ==
    [cash |-> s.cash, free |-> s.free, pos |-> s.pos[c], debt |-> s.debt[c], vp |-> s.lvp[c],
     val |-> IF pr.sharing THEN s.val ELSE NAdd(s.cash, Held(s, c))]

(* valuation price and value after an executed order *)
Kept(pr, st, oc) ==
    IF oc.s = "Filled" /\ pr.upd
    THEN [vp |-> oc.price,
          val |-> NAdd(NAdd(st.val, NSub(oc.cash, st.cash)),
                       NSub(IF NEq(oc.pos, "0") THEN "0" ELSE NMul(oc.pos, oc.price),
                            IF NEq(st.pos, "0") THEN "0" ELSE NMul(st.pos, st.vp)))]
    ELSE [vp |-> st.vp, val |-> st.val]

(* State after column c's order had outcome oc *)
AfterOrder(pr, s, c, st, oc, kept) ==
    LET s1 == [s EXCEPT !.cash = oc.cash, !.free = oc.free, !.pos = [@ EXCEPT ![c] = oc.pos],
                        !.debt = [@ EXCEPT ![c] = oc.debt], !.val = kept.val, !.done = Append(@, c),
                        !.lvp = [@ EXCEPT ![c] = IF ~NIsNaN(kept.vp) \/ ~pr.ffill THEN kept.vp ELSE @]]
        last == Len(s1.done) = pr.to[s.g] - pr.from[s.g] + 1
    IN IF ~last THEN s1
       ELSE IF s.i < pr.t THEN [s1 EXCEPT !.i = @ + 1, !.act = FALSE]
       ELSE IF s.g < Len(pr.from) THEN [s1 EXCEPT !.i = 1, !.g = @ + 1, !.act = FALSE, !.cash = pr.init[s.g + 1],
                                                  !.free = pr.init[s.g + 1]]
       ELSE [s1 EXCEPT !.i = @ + 1, !.act = FALSE]

Start(pr) == [g |-> 1, i |-> 1, done |-> <<>>, cash |-> pr.init[1], free |-> pr.init[1],
              pos |-> [c \in 1..pr.n |-> "0"], debt |-> [c \in 1..pr.n |-> "0"],
              lvp |-> [c \in 1..pr.n |-> "nan"], val |-> "nan", act |-> FALSE]
Finished(pr, s) == s.i > pr.t
=============================================================================
