------------------------------ MODULE TradesMC ------------------------------
(* Every short sequence of orders on one column.                              *)
EXTENDS Trades, Rep
CONSTANTS N, Sizes, Prices, FeeSet, Last
VARIABLES os, s, fin
vars == <<os, s, fin>>
Init == os = <<>> /\ s = Out0(0) /\ fin = FALSE
Place == /\ ~fin /\ Len(os) < N
         /\ \E d \in {"Buy", "Sell"}, z \in Sizes, p \in Prices, f \in FeeSet :
              LET o == [i |-> (Len(os) + 2) \div 2, side |-> d, size |-> z, price |-> p, fees |-> f]
              IN os' = Append(os, o) /\ s' = TLCEval(Step(s, o))
         /\ fin' = FALSE
End == /\ ~fin /\ Len(os) = N /\ fin' = TRUE /\ os' = os
       /\ s' = TLCEval(Settle(s, (N + 1) \div 2, Last))
       /\ Emit(<<os, s'.en, s'.ex, s'.ps>>)
Next == Place \/ End
Spec == Init /\ [][Next]_vars
Money == SumOf([k \in 1..Len(os) |-> NSub(NMul(IF os[k].side = "Sell" THEN os[k].size ELSE NNeg(os[k].size), os[k].price), os[k].fees)], Len(os))
Held == SumOf([k \in 1..Len(os) |-> IF os[k].side = "Buy" THEN os[k].size ELSE NNeg(os[k].size)], Len(os))
(* profits of the positions are the profit of the column *)
ProfitOfColumn == fin => NEq(Total(s.ps, LAMBDA r : Pnl(r)), NAdd(Money, NMul(Held, Last)))
SidesOK == /\ (s.dir = "") = (NEq(Held, "0") \/ fin)
           /\ ~fin => (s.dir = "Long") = NGt(Held, "0")
ConservedInv == Conserved(s)
StatusInv == Statuses(s)
ExitsPerOrder == fin => Len(s.ex) + Len(s.en) >= Len(os)
=============================================================================
