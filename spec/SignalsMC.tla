------------------------------ MODULE SignalsMC ------------------------------
(* One column from signals, explored exhaustively.                            *)
(* Table: a flat, long or short position meets every combination of the four  *)
(* signals under every conflict, accumulation and opposite entry setting.     *)
(* Stops: a long or short position with stops meets every sequence of bars of *)
(* a small catalogue under every exit setting.                                *)
(* Every behaviour is emitted and replayed into the library.                  *)
EXTENDS FromSignals, Rep, TLC
CONSTANTS What, Accs, Confs, SConfs, DConfs, Opps, Sizes, NB, Shapes, Sls, Tps, Seps, Sxps, Usxs, Usus, Entry, Tight
VARIABLES set, bars, s, log
vars == <<set, bars, s, log>>

TF == {TRUE, FALSE}
(* bar shapes: open, high, low, close *)
Shape(n) == CASE n = "flat"  -> <<"8", "8", "8", "8">>
              [] n = "up"    -> <<"8", "10", "8", "10">>
              [] n = "down"  -> <<"8", "8", "6", "7">>
              [] n = "wide"  -> <<"8", "16", "4", "8">>
              [] n = "gapup" -> <<"13", "14", "12", "12">>
              [] n = "gapdn" -> <<"5", "5", "3", "4">>
              [] n = "nohl"  -> <<"8", "nan", "nan", "12">>
              [] n = "nan"   -> <<"nan", "nan", "nan", "6">>
              [] n = "peak"  -> <<"9", "12", "9", "9">>
              [] n = "edge"  -> <<"8", "10", "6", "8">>

Tab(v) == [i \in 1..NB |-> <<v>>]
Prog(x, bs) ==
    LET two(a, b) == [i \in 1..NB |-> <<IF i = 1 THEN a ELSE b>>]
        col(k) == [i \in 1..NB |-> <<Shape(bs[i])[k]>>]
    IN [n |-> 1, t |-> NB, from |-> <<1>>, to |-> <<1>>, sharing |-> FALSE, auto |-> FALSE, ffill |-> TRUE, upd |-> FALSE,
        init |-> <<"100">>, kind |-> "ls", stops |-> What = "stops",
        le |-> two(x.first = "long", x.b[1]), lx |-> two(FALSE, x.b[2]), se |-> two(x.first = "short", x.b[3]),
        sx |-> two(FALSE, x.b[4]),
        acc |-> two("Disabled", x.acc), lconf |-> Tab(x.lconf), sconf |-> Tab(x.sconf), dconf |-> Tab(x.dconf), opp |-> Tab(x.opp),
        size |-> two("4", x.size), stype |-> two("Amount", x.stype), price |-> Tab("inf"), vp |-> Tab("inf"),
        open |-> col(1), high |-> col(2), low |-> col(3), close |-> col(4),
        fees |-> Tab("0"), ffees |-> Tab("0"), slip |-> Tab("1/4"), minsz |-> Tab("0"), maxsz |-> Tab("inf"), gran |-> Tab("nan"),
        rp |-> Tab("0"), lock |-> Tab(FALSE), partial |-> Tab(TRUE),
        sl |-> Tab(x.sl), trail |-> Tab(x.trail), tp |-> Tab(x.tp), sep |-> Tab(x.sep), sxp |-> Tab(x.sxp),
        usx |-> Tab(x.usx), usu |-> Tab(x.usu)]

Firsts == IF What = "table" THEN {"none", "long", "short"} ELSE {"long", "short"}
Settings ==
    IF What = "table"
    THEN [first : Firsts, b : TF \X TF \X TF \X TF, acc : Accs, lconf : Confs, sconf : SConfs, dconf : DConfs, opp : Opps,
          size : Sizes, stype : {"Amount"}, sl : {"nan"}, trail : {FALSE}, tp : {"nan"}, sep : {"Close"}, sxp : {"StopLimit"},
          usx : {"Close"}, usu : {"Override"}]
    ELSE [first : Firsts, b : {<<e, FALSE, FALSE, FALSE>> : e \in Entry}, acc : Accs, lconf : {"Ignore"},
          sconf : {"Ignore"}, dconf : {"Ignore"}, opp : {"Ignore"}, size : {"2"}, stype : {"Amount"}, sl : Sls, trail : TF,
          tp : Tps, sep : Seps, sxp : Sxps, usx : Usxs, usu : Usus]
Bars0 == IF What = "table" THEN {[i \in 1..NB |-> IF i = 1 THEN "flat" ELSE "down"]}
         ELSE {[i \in 1..NB |-> IF i = 1 THEN "flat" ELSE f[i]] : f \in [2..NB -> Shapes]}

(* settings that cannot matter stay at one value in a tight run *)
Relevant(x) == IF What = "table"
               THEN /\ (x.lconf # "Ignore" => x.b[1] /\ x.b[2]) /\ (x.sconf # "Ignore" => x.b[3] /\ x.b[4])
                    /\ (x.dconf # "Ignore" => x.b[1] /\ x.b[3]) /\ (x.opp # "Ignore" => x.b[1] \/ x.b[3])
               ELSE x.sxp = "StopLimit" \/ x.usx = "Close"
Init == /\ set \in {x \in Settings : (Tight => Relevant(x)) /\ (x.sl = "nan" => ~x.trail) /\ ((What = "stops" /\ x.usu # "Override") => x.acc \in {"Both", "AddOnly"})}
        /\ bars \in Bars0
        /\ s = SigStart(Prog(set, bars)) /\ log = <<>>

Step ==
    LET pr == TLCEval(Prog(set, bars))
        i == s.i
    IN
    /\ ~Finished(pr, s)
    /\ LET o1 == TLCEval(SigOpenBar(pr, s))
           st == o1.stop[1]
           ds == TLCEval(Decide(pr, o1, 1, st, OwnSignals(pr, i, 1)))
           d == CHOOSE x \in ds : TRUE
           o2 == [o1 EXCEPT !.stop = <<Trail(pr, i, 1, NSgn(o1.pos[1]), st)>>, !.i = @ + 1, !.act = FALSE]
       IN /\ Assert(Cardinality(ds) = 1, <<"not deterministic", set, bars, ds>>)
          /\ IF d.d.ask = "error" THEN s' = [o2 EXCEPT !.i = NB + 1] /\ log' = Append(log, <<"error">>)
             ELSE IF d.d.ask = "none" THEN s' = o2 /\ log' = log
             ELSE LET acct == Account(pr, o1, 1)
                      outs == TLCEval(Outcomes(acct, d.d.o, TRUE))
                      oc == CHOOSE x \in outs : TRUE
                      kept == Kept(pr, acct, oc)
                  IN /\ Assert(Cardinality(outs) = 1 /\ ~IsErr(oc), <<"not deterministic", set, bars, outs>>)
                     /\ s' = [o2 EXCEPT !.cash = oc.cash, !.free = oc.free, !.pos = <<oc.pos>>, !.debt = <<oc.debt>>,
                                        !.lvp = <<kept.vp>>,
                                        !.stop = <<IF oc.s = "Filled" THEN NewStop(pr, i, 1, o2.stop[1], acct.pos, d.d.o, oc, kept.vp)
                                                   ELSE o2.stop[1]>>]
                     /\ log' = IF oc.s = "Filled" THEN Append(log, <<i - 1, oc.side, oc.size, oc.price>>) ELSE log
          /\ UNCHANGED <<set, bars>>
          /\ (s'.i > NB => Emit(<<set, bars, log'>>))
Spec == Init /\ [][Step]_vars

(* what the documentation promises, on the model *)
NoStopWhenFlat == NEq(s.pos[1], "0") => s.stop[1] = NoStop
ExitNeverOpens == What = "table" /\ s.i > 2 /\ set.first = "none" /\ ~set.b[1] /\ ~set.b[3] => NEq(s.pos[1], "0")
NoAccumulation == What = "table" /\ s.i > 2 /\ set.acc \in {"Disabled", "RemoveOnly"} /\ set.first # "none"
                  /\ (set.first = "long" => ~set.b[3]) /\ (set.first = "short" => ~set.b[1]) => NLe(NAbs(s.pos[1]), "4")
TrailFollows == (~NIsNaN(s.stop[1].ref) /\ s.stop[1].trail)
                => IF NGt(s.pos[1], "0") THEN NGe(s.stop[1].ref, s.stop[1].sp) ELSE NLe(s.stop[1].ref, s.stop[1].sp)
=============================================================================
