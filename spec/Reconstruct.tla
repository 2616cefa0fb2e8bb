---------------------------- MODULE Reconstruct ----------------------------
(* What a portfolio derives from its order records.                           *)
(*                                                                            *)
(* A portfolio pf has pf.n columns, pf.t bars, closes pf.close[i][x], orders   *)
(* pf.ord[x] (a sequence, in execution order, of [i, side, size, price,        *)
(* fees]).  The account of a column is [pos, debt, cf, ff, cash, free, k,      *)
(* fl, fs]: position, short debt, cash and free cash flow of the bar, flows    *)
(* accumulated so far, orders consumed, long and short asset flow of the bar.  *)
EXTENDS Num, FiniteSets, TLC
SnapAdd(a, b) == IF NNear(a, NNeg(b), "1/1000000000", "1/1000000000000") THEN "0" ELSE NAdd(a, b)
Pos(a) == IF NGt(a, "0") THEN a ELSE "0"
Neg(a) == IF NLt(a, "0") THEN NNeg(a) ELSE "0"

Acc0 == [pos |-> "0", debt |-> "0", cf |-> "0", ff |-> "0", cash |-> "0", free |-> "0", k |-> 0, fl |-> "0", fs |-> "0", fb |-> "0"]
NewBar(a) == [a EXCEPT !.cf = "0", !.ff = "0", !.fl = "0", !.fs = "0", !.fb = "0"]

(* one order on the account *)
Fill(a, o) ==
    LET sz == IF o.side = "Sell" THEN NNeg(o.size) ELSE o.size
        p1 == SnapAdd(a.pos, sz)
        flow == NSub(NNeg(NMul(sz, o.price)), o.fees)
        covered == IF NGt(sz, "0") /\ NLt(a.pos, "0") THEN NMin(sz, NNeg(a.pos)) ELSE "0"
        repaid == IF NEq(covered, "0") THEN "0" ELSE NMul(NDiv(covered, NNeg(a.pos)), a.debt)
        opened == IF NLt(sz, "0") /\ NLt(p1, "0") THEN NMin(NNeg(sz), NNeg(p1)) ELSE "0"
        lent == NMul(opened, o.price)
        ff == NSub(NAdd(flow, NMul("2", repaid)), NMul("2", lent))
        debt1 == IF NGe(p1, "0") THEN "0" ELSE NAdd(NSub(a.debt, repaid), lent)
    IN [pos |-> p1, debt |-> debt1, cf |-> NAdd(a.cf, flow), ff |-> NAdd(a.ff, ff),
        cash |-> NAdd(a.cash, flow), free |-> NAdd(a.free, ff), k |-> a.k + 1,
        fl |-> NAdd(a.fl, NSub(Pos(p1), Pos(a.pos))), fs |-> NAdd(a.fs, NSub(Neg(p1), Neg(a.pos))), fb |-> NAdd(a.fb, sz)]
RECURSIVE Fills(_, _, _)
(* all orders of bar i that come next *)
Fills(a, os, i) ==
    IF a.k < Len(os) /\ os[a.k + 1].i = i THEN Fills(TLCEval(Fill(a, os[a.k + 1])), os, i) ELSE a
Bar(a, os, i) == Fills(NewBar(a), os, i)

(* ---------------------------------------------------------------- prices *)
RECURSIVE LastKnown(_, _), NextKnown(_, _)
LastKnown(s, i) == IF i < 1 THEN "nan" ELSE IF ~NIsNaN(s[i]) THEN s[i] ELSE LastKnown(s, i - 1)
NextKnown(s, i) == IF i > Len(s) THEN "nan" ELSE IF ~NIsNaN(s[i]) THEN s[i] ELSE NextKnown(s, i + 1)
(* a missing price is the last known one, or else the first that will be known *)
Filled(s) == [i \in 1..Len(s) |-> LET l == LastKnown(s, i) IN IF NIsNaN(l) THEN NextKnown(s, i) ELSE l]
CloseOf(pf, x) == LET s == [i \in 1..pf.t |-> pf.close[i][x]] IN IF pf.fillna THEN Filled(s) ELSE s
Worth(pos, price) == IF NEq(pos, "0") THEN "0" ELSE NMul(pos, price)

(* ---------------------------------------------------------- initial cash *)
RECURSIVE Sum(_, _, _)
Sum(f, a, b) == IF a > b THEN "0" ELSE NAdd(f[a], Sum(f, a + 1, b))
RECURSIVE LowPoint(_, _, _, _, _)
(* lowest end-of-bar cash of columns a..b starting from 0 *)
LowPoint(pf, accs, a, b, i) ==
    IF i > pf.t THEN "inf"
    ELSE LET n == TLCEval([x \in a..b |-> Bar(accs[x], pf.ord[x], i)])
         IN NMin(Sum([x \in a..b |-> n[x].cash], a, b), LowPoint(pf, n, a, b, i + 1))
AutoCash(pf, a, b) ==
    LET low == LowPoint(pf, [x \in a..b |-> Acc0], a, b, 1)
    IN IF NLt(low, "0") THEN NNeg(low) ELSE "1"
RECURSIVE Largest(_)
Largest(s) == IF Len(s) = 1 THEN s[1] ELSE NMax(s[1], Largest(Tail(s)))
(* columns a..b seen as one unit; cash groups are pf.from[g]..pf.to[g] *)
GroupOf(pf, x) == CHOOSE g \in 1..Len(pf.from) : pf.from[g] <= x /\ x <= pf.to[g]
UnitCash(pf, a, b) ==
    IF pf.auto THEN AutoCash(pf, a, b)
    ELSE IF pf.sharing THEN pf.init[GroupOf(pf, a)]
    ELSE Sum(pf.init, a, b)
InitCash(pf, v) ==
    LET own == [u \in 1..Len(v.from) |-> UnitCash(pf, v.from[u], v.to[u])]
    IN IF pf.align THEN [u \in 1..Len(own) |-> Largest(own)] ELSE own

(* ---------------------------------------------------------------- returns *)
Ret(a, b) ==
    IF NIsNaN(a) \/ NIsNaN(b) THEN (IF NEq(a, "0") THEN "nan" ELSE "nan")
    ELSE IF NEq(a, "0") THEN (IF NEq(b, "0") THEN "0" ELSE IF NGt(b, "0") THEN "inf" ELSE "-inf")
    ELSE NDiv(NSub(b, a), NAbs(a))
Share(x, free) == LET d == NAdd(x, free) IN IF NEq(d, "0") THEN "0" ELSE NDiv(x, d)
=============================================================================
