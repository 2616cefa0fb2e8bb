------------------------------- MODULE Tables -------------------------------
(* The tables of statistics the library ships with: for every kind of object,  *)
(* which rows a table has, in which order, and the calculation each row stands *)
(* for, written over the object's public calculations:                         *)
(*   P portfolio, A the object itself, G the grouping asked for, w its wrapper, *)
(*   H whether a frequency is known; td turns counts into durations if so.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* t title, f calculation, tags, need: "" or what must be the case, ag: whether *)
(* several values may be aggregated (else the row is left out then)             *)
Row(t, f, tags) == [t |-> t, f |-> f, tags |-> tags, need |-> "", ag |-> TRUE]
Need(r, n) == [r EXCEPT !.need = n]
NoAg(r) == [r EXCEPT !.ag = FALSE]
Pct(f) == "(" \o f \o ") * 100"
Td(f) == "td(" \o f \o ")"
Span == <<Row("Start", "w.index[0]", {"wrapper"}), Row("End", "w.index[-1]", {"wrapper"}), Row("Period", Td("len(w.index)"), {"wrapper"})>>
Needing(rs, n) == [i \in DOMAIN rs |-> Need(rs[i], n)]
Tagged(rs, tags) == [i \in DOMAIN rs |-> [rs[i] EXCEPT !.tags = @ \cup tags]]
(* ----------------------------------------------------------------- portfolio *)
TradesOf(o) == LET f == CASE o.type = "entry" -> "P.get_entry_trades" [] o.type = "pos" -> "P.get_positions" [] OTHER -> "P.get_exit_trades" IN f \o "(group_by=G)"
TradeRows(T) ==
    <<Row("Win Rate [%]", Pct(T \o ".win_rate()"), {}), Row("Best Trade [%]", Pct(T \o ".returns.max()"), {}), Row("Worst Trade [%]", Pct(T \o ".returns.min()"), {}),
      Row("Avg Winning Trade [%]", Pct(T \o ".winning.returns.mean()"), {"winning"}), Row("Avg Losing Trade [%]", Pct(T \o ".losing.returns.mean()"), {"losing"}),
      Row("Avg Winning Trade Duration", Td(T \o ".winning.duration.mean()"), {"winning", "duration"}), Row("Avg Losing Trade Duration", Td(T \o ".losing.duration.mean()"), {"losing", "duration"}),
      Row("Profit Factor", T \o ".profit_factor()", {}), Row("Expectancy", T \o ".expectancy()", {})>>
OpenTags(o) == IF o.open THEN {"open", "closed"} ELSE {"closed"}
Ratios(R) == <<Row("Sharpe Ratio", R \o ".sharpe_ratio()", {}), Row("Calmar Ratio", R \o ".calmar_ratio()", {}), Row("Omega Ratio", R \o ".omega_ratio()", {}), Row("Sortino Ratio", R \o ".sortino_ratio()", {})>>
Portfolio(o) ==
    LET T == TradesOf(o)
        R == "P.get_returns_acc(group_by=G, use_asset_returns=" \o (IF o.asset THEN "True" ELSE "False") \o ")"
    IN  Span
        \o Tagged(<<Row("Start Value", "P.get_init_cash(group_by=G)", {}), Row("End Value", "P.final_value(group_by=G)", {}),
                    Row("Total Return [%]", Pct("P.total_return(group_by=G)"), {}), Row("Benchmark Return [%]", Pct("P.total_benchmark_return(group_by=G)"), {}),
                    Row("Max Gross Exposure [%]", Pct("P.gross_exposure(group_by=G).max()"), {}), Row("Total Fees Paid", "P.get_orders(group_by=G).fees.sum()", {"orders"}),
                    Row("Max Drawdown [%]", Pct("-P.get_drawdowns(group_by=G).max_drawdown()"), {"drawdowns"}),
                    Row("Max Drawdown Duration", "P.get_drawdowns(group_by=G).max_duration(wrap_kwargs=dict(to_timedelta=H))", {"drawdowns", "duration"}),
                    Row("Total Trades", T \o ".count()", {"trades"}), Row("Total Closed Trades", T \o ".closed.count()", {"trades", "closed"}),
                    Row("Total Open Trades", T \o ".open.count()", {"trades", "open"}), Row("Open Trade PnL", T \o ".open.pnl.sum()", {"trades", "open"})>>
                  \o Tagged(TradeRows(IF o.open THEN T ELSE T \o ".closed"), {"trades"} \cup OpenTags(o))
                  \o Needing(Tagged(Ratios(R), {"returns"}), "freq"), {"portfolio"})
(* ------------------------------------------------------------------- records *)
Coverage == <<Row("Coverage", Td("A.coverage(overlapping=False, normalize=False, group_by=G)"), {"ranges", "coverage"}),
              Row("Overlap Coverage", Td("A.coverage(overlapping=True, normalize=False, group_by=G)"), {"ranges", "coverage"})>>
Count == Row("Total Records", "A.count(group_by=G)", {"records"})
Trades(o) ==
    LET C(f) == (IF o.open THEN "A." ELSE "A.closed.") \o f
        tr == Tagged(TradeRows(IF o.open THEN "A" ELSE "A.closed"), {"trades"} \cup OpenTags(o))
    IN  Span \o <<Row("First Trade Start", "A.entry_idx.nth(0, wrap_kwargs=dict(to_index=True))", {"trades", "index"}), Row("Last Trade End", "A.exit_idx.nth(-1, wrap_kwargs=dict(to_index=True))", {"trades", "index"})>>
        \o Coverage \o <<Count>>
        \o Tagged(<<Row("Total Long Trades", "A.long.count()", {"long"}), Row("Total Short Trades", "A.short.count()", {"short"}), Row("Total Closed Trades", "A.closed.count()", {"closed"}),
                    Row("Total Open Trades", "A.open.count()", {"open"}), Row("Open Trade PnL", "A.open.pnl.sum()", {"open"}),
                    (* the share of winners is told of closed trades only *)
                    Row("Win Rate [%]", Pct("A.closed.win_rate()"), OpenTags(o)),
                    Row("Max Win Streak", C("winning_streak.max()"), OpenTags(o) \cup {"streak"}), Row("Max Loss Streak", C("losing_streak.max()"), OpenTags(o) \cup {"streak"})>>, {"trades"})
        \o SubSeq(tr, 2, 9) \o Tagged(<<Row("SQN", C("sqn()"), {"trades"})>>, OpenTags(o))
Orders(o) ==
    LET F(s, f) == "A." \o s \o f IN
    Span \o <<Count>>
    \o Tagged(<<Row("Total Buy Orders", "A.buy.count()", {"buy"}), Row("Total Sell Orders", "A.sell.count()", {"sell"}),
                Row("Min Size", "A.size.min()", {"size"}), Row("Max Size", "A.size.max()", {"size"}), Row("Avg Size", "A.size.mean()", {"size"}),
                Row("Avg Buy Size", "A.buy.size.mean()", {"buy", "size"}), Row("Avg Sell Size", "A.sell.size.mean()", {"sell", "size"}),
                Row("Avg Buy Price", "A.buy.price.mean()", {"buy", "price"}), Row("Avg Sell Price", "A.sell.price.mean()", {"sell", "price"}),
                Row("Total Fees", "A.fees.sum()", {"fees"}), Row("Min Fees", "A.fees.min()", {"fees"}), Row("Max Fees", "A.fees.max()", {"fees"}), Row("Avg Fees", "A.fees.mean()", {"fees"}),
                Row("Avg Buy Fees", "A.buy.fees.mean()", {"buy", "fees"}), Row("Avg Sell Fees", "A.sell.fees.mean()", {"sell", "fees"})>>, {"orders"})
Logs(o) == Span \o <<Count, Row("Status Counts: *", "counts(A.res_status.value_counts(incl_all_keys=True))", {"logs", "res_status", "value_counts"}),
                     Row("Status Info Counts: *", "counts(A.res_status_info.value_counts())", {"logs", "res_status_info", "value_counts"})>>
Ranges(o) == Span \o Coverage \o <<Count>>
             \o [i \in 1..5 |-> Row("Duration: " \o <<"Min", "Median", "Max", "Mean", "Std">>[i], Td("A.duration.describe().loc['" \o <<"min", "50%", "max", "mean", "std">>[i] \o "']"), {"ranges", "duration"})]
Drawdowns(o) ==
    LET C(f) == (IF o.open THEN "A." ELSE "A.recovered.") \o f
        W == "wrap_kwargs=dict(to_timedelta=H)"
        K == IF o.open THEN {} ELSE {"recovered"}
    IN  Span \o <<Row("Coverage [%]", Pct("A.coverage(group_by=G)"), {"ranges", "duration"}), Count>>
        \o Tagged(<<Row("Total Recovered Drawdowns", "A.recovered.count()", {}), Row("Total Active Drawdowns", "A.active.count()", {})>>
                  \o Needing(<<Row("Active Drawdown [%]", Pct("-A.active_drawdown()"), {"active"}), Row("Active Duration", "A.active_duration(" \o W \o ")", {"active", "duration"}),
                               Row("Active Recovery [%]", Pct("A.active_recovery()"), {"active"}), Row("Active Recovery Return [%]", Pct("A.active_recovery_return()"), {"active"}),
                               Row("Active Recovery Duration", "A.active_recovery_duration(" \o W \o ")", {"active", "duration"})>>, "ungrouped")
                  \o <<Row("Max Drawdown [%]", Pct("-" \o C("max_drawdown()")), K), Row("Avg Drawdown [%]", Pct("-" \o C("avg_drawdown()")), K),
                       Row("Max Drawdown Duration", C("max_duration(" \o W \o ")"), K \cup {"duration"}), Row("Avg Drawdown Duration", C("avg_duration(" \o W \o ")"), K \cup {"duration"}),
                       Row("Max Recovery Return [%]", Pct("A.recovered.recovery_return.max()"), {"recovered"}), Row("Avg Recovery Return [%]", Pct("A.recovered.recovery_return.mean()"), {"recovered"}),
                       Row("Max Recovery Duration", Td("A.recovered.recovery_duration.max()"), {"recovered", "duration"}), Row("Avg Recovery Duration", Td("A.recovered.recovery_duration.mean()"), {"recovered", "duration"}),
                       Row("Avg Recovery Duration Ratio", "A.recovered.recovery_duration_ratio.mean()", {"recovered"})>>, {"drawdowns"})
(* mapped arrays and time series: a summary of numbers, or counts of categories *)
Summary(first, tag, g) ==
    Tagged(<<first>> \o Tagged(Needing(<<Row("Mean", "A.mean(" \o g \o ")", {}), Row("Std", "A.std(" \o g \o ")", {}), Row("Min", "A.min(" \o g \o ")", {}), Row("Median", "A.median(" \o g \o ")", {}), Row("Max", "A.max(" \o g \o ")", {})>>, "numbers"), {"describe"})
             \o Needing(<<NoAg(Row("Min Index", "A.idxmin(" \o g \o ")", {"index"})), NoAg(Row("Max Index", "A.idxmax(" \o g \o ")", {"index"}))>>, "numbers")
             \o <<Need(Row("Value Counts: *", "counts(A.value_counts(" \o g \o "))", {"value_counts"}), "categories")>>, {tag})
Mapped(o) == Span \o Summary(Row("Count", "A.count(group_by=G)", {}), "mapped_array", "group_by=G")
Series(o) == Span \o Summary(Need(Row("Count", "A.count(group_by=G)", {"describe"}), "numbers"), "generic", "group_by=G")
(* ------------------------------------------------------------------- returns *)
Returns(o) ==
    LET U(rs) == Tagged(rs, {"returns"}) IN
    Span \o U(<<Row("Total Return [%]", Pct("A.total()"), {}), Need(Row("Benchmark Return [%]", Pct("A.benchmark_rets.vbt.returns.total()"), {}), "bench"),
           Need(Row("Annualized Return [%]", Pct("A.annualized()"), {}), "freq"), Need(Row("Annualized Volatility [%]", Pct("A.annualized_volatility()"), {}), "freq"),
           Row("Max Drawdown [%]", Pct("-A.drawdowns.max_drawdown(group_by=G)"), {"drawdowns"}), Row("Max Drawdown Duration", "A.drawdowns.max_duration(group_by=G, wrap_kwargs=dict(to_timedelta=H))", {"drawdowns", "duration"})>>
      \o Needing(Ratios("A"), "freq")
      \o <<Row("Skew", "A.obj.skew()", {}), Row("Kurtosis", "A.obj.kurtosis()", {}), Row("Tail Ratio", "A.tail_ratio()", {}), Need(Row("Common Sense Ratio", "A.common_sense_ratio()", {}), "freq"),
           Row("Value at Risk", "A.value_at_risk()", {}), Need(Row("Alpha", "A.alpha()", {}), "freqbench"), Need(Row("Beta", "A.beta()", {}), "bench")>>)
(* ------------------------------------------------------------------- signals *)
Four(t, f, tags) == [i \in 1..4 |-> Row(t \o ": " \o <<"Min", "Max", "Mean", "Std">>[i], Td(f \o <<".min()", ".max()", ".mean()", ".std()">>[i]), tags)]
Signals(o) ==
    LET D == IF ~o.other THEN "Distance" ELSE IF o.open THEN "Distance <- Other" ELSE "Distance -> Other"
        B == IF o.other THEN "A.between_ranges(other=O, from_other=" \o (IF o.open THEN "True" ELSE "False") \o ", group_by=G)" ELSE "A.between_ranges(group_by=G)"
    IN  Span \o Tagged(<<Row("Total", "A.total(group_by=G)", {}), Row("Rate [%]", Pct("A.rate(group_by=G)"), {}),
                   Need(Row("Total Overlapping", "(A.obj & O).vbt.signals(wrapper=w).total(group_by=G)", {"other"}), "other"),
                   Need(Row("Overlapping Rate [%]", Pct("(A.obj & O).vbt.signals(wrapper=w).total(group_by=G) / (A.obj | O).vbt.signals(wrapper=w).total(group_by=G)"), {"other"}), "other"),
                   Row("First Index", "A.nth_index(0, return_labels=True, group_by=G)", {"index"}), Row("Last Index", "A.nth_index(-1, return_labels=True, group_by=G)", {"index"}),
                   Row("Norm Avg Index [-1, 1]", "A.norm_avg_index(group_by=G)", {"index"})>>
             \o Four(D, B \o ".duration", {"distance"} \cup (IF o.other THEN {"other"} ELSE {}))
             \o <<Row("Total Partitions", "A.total_partitions(group_by=G)", {"partitions"}), Row("Partition Rate [%]", Pct("A.partition_rate(group_by=G)"), {"partitions"})>>
             \o Four("Partition Length", "A.partition_ranges(group_by=G).duration", {"partitions", "distance"})
             \o Four("Partition Distance", "A.between_partition_ranges(group_by=G).duration", {"partitions", "distance"}), {"signals"})
Data(o) == Span \o <<Row("Total Symbols", "len(A.symbols)", {"data"}), Row("Null Counts: *", "{k: v.isnull().vbt(wrapper=w).sum(group_by=G) for k, v in A.data.items()}", {"data"})>>
(* ------------------------------------------------------------------ which rows *)
Kinds == {"portfolio", "entry_trades", "exit_trades", "positions", "orders", "logs", "ranges", "drawdowns", "mapped", "series", "returns", "signals", "data", "records"}
Rows(o) == CASE o.kind = "portfolio" -> Portfolio(o) [] o.kind \in {"entry_trades", "exit_trades", "positions"} -> Trades(o) [] o.kind = "orders" -> Orders(o) [] o.kind = "logs" -> Logs(o)
             [] o.kind = "ranges" -> Ranges(o) [] o.kind = "drawdowns" -> Drawdowns(o) [] o.kind = "mapped" -> Mapped(o) [] o.kind = "series" -> Series(o)
             [] o.kind = "returns" -> Returns(o) [] o.kind = "signals" -> Signals(o) [] o.kind = "data" -> Data(o) [] OTHER -> Span \o <<Row("Count", "A.count(group_by=G)", {"records"})>>
Grouped(o) == o.by \in {"own", "by"}
Met(o, n) == CASE n = "" -> TRUE [] n = "freq" -> o.freq [] n = "ungrouped" -> ~Grouped(o) [] n = "bench" -> o.other [] n = "freqbench" -> o.other /\ o.freq [] n = "other" -> o.other
               [] n = "numbers" -> ~o.open [] n = "categories" -> o.open
(* all but the span of a table of returns is for ungrouped columns *)
Stays(o, i) == Met(o, Rows(o)[i].need) /\ (o.kind = "returns" /\ i > 3 => ~Grouped(o))
(* a selection by tags *)
Fits(sel, tags) == CASE sel = "" -> TRUE [] sel = "trades" -> "trades" \in tags [] sel = "duration" -> "duration" \in tags [] sel = "closed and not winning" -> "closed" \in tags /\ "winning" \notin tags
                     [] sel = "wrapper or index" -> "wrapper" \in tags \/ "index" \in tags [] OTHER -> "wrapper" \notin tags
Table(o) == LET rs == TLCEval(Rows(o)) IN SelectSeq([i \in DOMAIN rs |-> IF Stays(o, i) /\ Fits(o.sel, rs[i].tags) THEN rs[i] ELSE [rs[i] EXCEPT !.t = ""]], LAMBDA r : r.t # "")
=============================================================================
