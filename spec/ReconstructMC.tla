---------------------------- MODULE ReconstructMC ----------------------------
(* Every short sequence of orders on one column, over NB bars with up to two   *)
(* orders a bar; the account and its series are emitted for replay.            *)
EXTENDS Reconstruct, Rep
CONSTANTS NB, Sizes, Prices, FeeSet
VARIABLES os, acc, bar, inbar, hist
vars == <<os, acc, bar, inbar, hist>>
Close == <<"2", "5", "3", "4">>
Init == os = <<>> /\ acc = Acc0 /\ bar = 1 /\ inbar = 0 /\ hist = <<>>
Place == /\ bar <= NB /\ inbar < 2
         /\ \E s \in {"Buy", "Sell"}, z \in Sizes, p \in Prices, f \in FeeSet :
              LET o == [i |-> bar, side |-> s, size |-> z, price |-> p, fees |-> f] IN
              os' = Append(os, o) /\ acc' = TLCEval(Fill(acc, o))
         /\ inbar' = inbar + 1 /\ UNCHANGED <<bar, hist>>
CloseBar == /\ bar <= NB
            /\ hist' = Append(hist, <<acc.pos, acc.cf, acc.ff, acc.cash, acc.free, Worth(acc.pos, Close[bar]), acc.fl, acc.fs>>)
            /\ acc' = NewBar(acc) /\ bar' = bar + 1 /\ inbar' = 0 /\ UNCHANGED os
            /\ (bar' > NB => Emit(<<os, hist'>>))
Next == Place \/ CloseBar
Spec == Init /\ [][Next]_vars
(* the walk agrees with the definitions *)
RECURSIVE Moved(_), Bought(_)
Moved(s) == IF s = <<>> THEN "0" ELSE LET o == s[1] IN
    NAdd(NSub(NMul(IF o.side = "Sell" THEN o.size ELSE NNeg(o.size), o.price), o.fees), Moved(Tail(s)))
Bought(s) == IF s = <<>> THEN "0" ELSE NAdd(IF s[1].side = "Buy" THEN s[1].size ELSE NNeg(s[1].size), Bought(Tail(s)))
CashIsMoved == NEq(acc.cash, Moved(os))
AssetsAreBought == NEq(acc.pos, Bought(os))
FreeCash == NEq(acc.cash, NAdd(acc.free, NMul("2", acc.debt)))
DebtIffShort == NGt(acc.debt, "0") = NLt(acc.pos, "0")
SidesSplit == NEq(NSub(acc.fl, acc.fs), acc.fb)
Batch == acc = Fills([NewBar(acc) EXCEPT !.pos = "0", !.debt = "0", !.cash = "0", !.free = "0", !.k = 0], os, bar) \/ bar > 1
=============================================================================
