---------------------------- MODULE FromOrdersMC ----------------------------
(* Every program of NB bars and 2 columns over a small catalogue of requests, *)
(* with every mode of cash sharing, call sequence and value update.  Complete *)
(* behaviours are emitted and replayed into the library.                      *)
EXTENDS FromOrders, Rep, TLC
CONSTANTS NB, Cat, Modes
VARIABLES prog, mode, pr, s, log
vars == <<prog, mode, pr, s, log>>

(* catalogue: size, type, direction, lock, price *)
Rq(n) == CASE n = "buy"   -> <<"2", "Amount", "Both", FALSE, "inf">>
           [] n = "all"   -> <<"inf", "Amount", "LongOnly", FALSE, "inf">>
           [] n = "sell"  -> <<"-2", "Amount", "Both", FALSE, "inf">>
           [] n = "short" -> <<"1", "Percent", "ShortOnly", TRUE, "inf">>
           [] n = "half"  -> <<"1/2", "TargetPercent", "Both", FALSE, "inf">>
           [] n = "none"  -> <<"0", "TargetPercent", "Both", FALSE, "inf">>
           [] n = "val"   -> <<"-8", "TargetValue", "Both", TRUE, "-inf">>
           [] n = "nan"   -> <<"nan", "Amount", "Both", FALSE, "inf">>
           [] n = "pct"   -> <<"-1/2", "Percent", "Both", FALSE, "8">>
Px == <<<<"4", "2">>, <<"8", "4">>, <<"2", "8">>>>
Md(n) == CASE n = "own"  -> [sharing |-> FALSE, auto |-> FALSE, upd |-> FALSE, rev |-> FALSE, vp |-> "inf", fees |-> "0"]
           [] n = "auto" -> [sharing |-> TRUE, auto |-> TRUE, upd |-> FALSE, rev |-> FALSE, vp |-> "inf", fees |-> "0"]
           [] n = "prev" -> [sharing |-> TRUE, auto |-> TRUE, upd |-> FALSE, rev |-> FALSE, vp |-> "4", fees |-> "1/8"]
           [] n = "rev"  -> [sharing |-> TRUE, auto |-> FALSE, upd |-> TRUE, rev |-> TRUE, vp |-> "-inf", fees |-> "0"]
           [] n = "fwd"  -> [sharing |-> TRUE, auto |-> FALSE, upd |-> TRUE, rev |-> FALSE, vp |-> "inf", fees |-> "1/8"]

Con(v) == [i \in 1..NB |-> <<v, v>>]
Pr(pg, m) ==
    LET f(k) == [i \in 1..NB |-> [c \in 1..2 |-> Rq(pg[i][c])[k]]] IN
    [n |-> 2, t |-> NB, from |-> IF Md(m).sharing THEN <<1>> ELSE <<1, 2>>, to |-> IF Md(m).sharing THEN <<2>> ELSE <<1, 2>>,
     sharing |-> Md(m).sharing, auto |-> Md(m).auto, ffill |-> TRUE, upd |-> Md(m).upd,
     init |-> IF Md(m).sharing THEN <<"16">> ELSE <<"16", "16">>,
     close |-> Px, size |-> f(1), stype |-> f(2), dir |-> f(3), lock |-> f(4), price |-> f(5), vp |-> Con(Md(m).vp),
     fees |-> Con(Md(m).fees), ffees |-> Con("0"), slip |-> Con("0"), minsz |-> Con("0"), maxsz |-> Con("inf"),
     gran |-> Con("nan"), rp |-> Con("0"), partial |-> Con(TRUE),
     seq |-> [i \in 1..NB |-> IF Md(m).rev THEN <<1, 0>> ELSE <<0, 1>>]]

Init == /\ prog \in [1..NB -> [1..2 -> Cat]]
        /\ mode \in Modes
        /\ pr = Pr(prog, mode)
        /\ s = Start(pr) @@ [av |-> <<>>] /\ log = <<>>

Step ==
    /\ ~Finished(pr, s)
    /\ LET o1 == IF s.act THEN s ELSE TLCEval([OpenBar(pr, s) EXCEPT !.lvp = TLCEval(@)])
           av == IF ~pr.auto THEN <<>> ELSE IF s.act THEN s.av ELSE TLCEval([x \in 1..2 |-> ApproxValue(pr, o1, x)])
           can == NextCols(pr, o1, av)
           (* equal approximate values keep the column order *)
           col == CHOOSE x \in can : \A y \in can : (pr.auto \/ ~pr.sharing) => x <= y
           st == Account(pr, o1, col)
           outs == TLCEval(Outcomes(st, OrderAt(pr, o1.i, col), TRUE))
           oc == CHOOSE x \in outs : TRUE
       IN /\ Assert(Cardinality(outs) = 1, <<"not deterministic", st, outs>>)
          /\ Assert(IsErr(oc) \/ Laws(st, OrderAt(pr, o1.i, col), oc), <<"law broken", st, oc>>)
          /\ IF IsErr(oc) THEN s' = [o1 EXCEPT !.i = NB + 1] /\ log' = Append(log, <<"error">>)
             ELSE /\ s' = [AfterOrder(pr, o1, col, st, oc, Kept(pr, st, oc)) EXCEPT !.av = av]
                  /\ log' = IF oc.s = "Filled" THEN Append(log, <<o1.i - 1, col - 1, oc.side, oc.size, oc.price, oc.fees, oc.cash>>) ELSE log
    /\ UNCHANGED <<prog, mode, pr>>
    /\ (Finished(pr, s') => Emit(<<prog, mode, log', s'.cash, s'.pos>>))
Spec == Init /\ [][Step]_vars

CashOK == s.cash = "nan" \/ NGe(s.cash, "0")
DebtIffShort == \A c \in 1..2 : NLt(s.pos[c], "0") <=> NGt(s.debt[c], "0")
(* every unit of cash is accounted for by the orders *)
RECURSIVE Flow(_, _)
Flow(l, g) == IF l = <<>> THEN "0"
              ELSE LET e == Head(l) IN
                   IF Len(e) = 1 \/ (~Md(mode).sharing /\ e[2] + 1 # g) THEN Flow(Tail(l), g)
                   ELSE NAdd(NSub(IF e[3] = "Buy" THEN NNeg(NMul(e[4], e[5])) ELSE NMul(e[4], e[5]), e[6]), Flow(Tail(l), g))
CashIsFlow == s.g = s.g /\ NEq(s.cash, NAdd("16", Flow(log, s.g)))
(* the free cash of a group is its cash less twice the debt of its shorts *)
FreeCash == LET d == IF Md(mode).sharing THEN NAdd(s.debt[1], s.debt[2]) ELSE s.debt[s.g]
            IN NEq(s.free, NSub(s.cash, NMul(2, d)))
=============================================================================
