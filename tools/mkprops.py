"""Writes properties.jsonl (one place for the wording)."""
import json, os
R = "vectorbt/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=False):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [R + f for f in files], "mechanism": [{"name": n, "where": w if w.startswith("vectorbt") else R + w} for n, w in mech],
         "observe_at": [x.strip() for x in observe.split(";")], "hook_needed": None}
    if state:
        a["state"] = [{"name": x.strip(), "meaning": "abstract state the specification keeps"} for x in state.replace(";", ",").split(",")]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("P01", "Every order is filled, ignored or rejected exactly by the documented rules",
  "Given an account (cash, position, debt, free cash, valuation price, value) and an order, the outcome - filled with which size, price, fees and side, or ignored or rejected for which reason, or an error for invalid input - and the account afterwards are exactly those the documented meaning of size, size type, direction, fees, fixed fees, slippage, minimum and maximum size, granularity, cash locking, partial filling and rejection probability determines. "
  "A filled order has positive size within its limits, moves the position by its size and cash by its value and fees, never makes cash negative, never leaves the side of a long-only or short-only direction, and keeps cash = free cash + twice the debt (up to what other columns lock); any other outcome leaves the account untouched. "
  "Asking to raise on rejection raises exactly when an order is rejected, and logging never changes what is executed.",
  ["inputs", "histories", "configurations"],
  "every reachable account state, every order and every combination of order options (six size types, three directions, finite, infinite, zero and NaN sizes, limits that bind or not)",
  "A unit test pins a handful of single-option orders from a flat account; the rules interact (direction x size type x cash lock x granularity x partial fill x fees) over accounts that earlier orders built up.",
  ["portfolio/nb.py", "portfolio/enums.py"],
  [("order execution", "portfolio/nb.py: execute_order_nb, buy_nb, sell_nb"), ("processing and raising", "portfolio/nb.py: process_order_nb, raise_rejected_order_nb")],
  "return value of the order execution function; log and order records of a simulation")

p("P02", "Simulating from order arrays equals sequential processing, bar by bar",
  "Simulating from order arrays processes the bars in time order, and in every bar each column exactly once - in a group that shares cash in the given call sequence, or for the automatic sequence by ascending approximate order value so that sales come before purchases - each order seeing the cash and free cash of its column or cash-sharing group and the position and debt left by the previous orders. "
  "Infinite prices stand for the close (positive) or the previous close (negative), infinite valuation prices for the order price or the previous close, unknown valuation prices are carried forward if asked, and the value an order sees is cash plus the valued positions of its column or group at the beginning of the bar (kept up to date within the bar if asked). "
  "Columns and groups that do not share cash do not influence one another, and later bars never influence earlier ones.",
  ["inputs", "histories", "configurations"],
  "all arrays of orders, groupings, call sequences, valuation options and initial cash settings",
  "Tests fix one small price table and check a few columns; ordering, carry-over and isolation errors show only for particular mixes of grouping, call sequence, NaN/infinite prices and bar history.",
  ["portfolio/nb.py", "portfolio/base.py", "utils/array_.py"],
  [("simulation loop", "portfolio/nb.py: simulate_from_orders_nb"), ("call sequence", "portfolio/nb.py: build_call_seq, approx_order_value_nb; utils/array_.py: insert_argsort_nb"), ("argument preparation", "portfolio/base.py: Portfolio.from_orders")],
  "log and order records of Portfolio.from_orders", "cash, free cash per group; position, debt, valuation price per column")

p("P03", "Signals turn into orders by the documented conflict and accumulation rules",
  "In simulation from signals, each bar and column yields at most one order, and its direction, size and size type are determined by the four signals (long entry, long exit, short entry, short exit, or entries and exits with a direction), the current position and the accumulation, long/short conflict, direction conflict and opposite entry settings exactly as documented; without a resulting signal no order is placed. "
  "Entries without accumulation never add to a position in the same direction, exits never open one, and reversals close and reopen in one order. "
  "The same rules hold whether the signals come as arrays or from a signal function.",
  ["inputs", "histories", "configurations"],
  "all signal histories and all settings of accumulation and conflict resolution",
  "The decision table has thousands of rows (signals x position x five settings); tests visit few of them and rarely after a non-trivial history.",
  ["portfolio/nb.py", "portfolio/base.py", "portfolio/enums.py"],
  [("conflict resolution", "portfolio/nb.py: resolve_signal_conflict_nb, resolve_dir_conflict_nb, resolve_opposite_entry_nb"), ("signal to size", "portfolio/nb.py: signals_to_size_nb"), ("loops", "portfolio/nb.py: simulate_from_signals_nb, simulate_from_signal_func_nb"), ("arguments", "portfolio/base.py: Portfolio.from_signals")],
  "log and order records of Portfolio.from_signals")

p("P04", "Stop loss, trailing stop and take profit fire at the right bar and price",
  "In simulation from signals with stops, an open position exits at the first bar after entry at which the low or high (or open, when the bar gaps) reaches its stop loss, trailing stop loss - whose reference follows the best price since entry - or take profit level, measured from the configured entry price; the stop loss is examined before the take profit. "
  "The exit price, slippage, and what the exit does (close, reduce, reverse) follow the configured stop exit settings, a stop takes precedence over the bar's own signals as configured, and new entries update or keep the stop as configured. "
  "Stops are forgotten when the position closes, and dynamic adjustment functions see and change exactly the current stop.",
  ["inputs", "histories", "configurations"],
  "all price paths (open, high, low, close), stop levels per element, and settings of entry price, exit price, exit mode and update mode",
  "Tests use one five-bar path per option; stop state lives across bars (reference price, trailing maximum, updates upon accumulation) so errors need a specific multi-bar history.",
  ["portfolio/nb.py", "portfolio/base.py"],
  [("stop price", "portfolio/nb.py: get_stop_price_nb, resolve_stop_price_and_slippage_nb"), ("stop signal", "portfolio/nb.py: generate_stop_signal_nb, should_update_stop_nb"), ("stop state", "portfolio/nb.py: simulate_from_signals_nb, simulate_from_signal_func_nb")],
  "log and order records of Portfolio.from_signals", "entry index, entry price, stop, trailing reference per column")

p("P05", "Callback simulations call functions in documented order with current state",
  "Simulation with user order functions calls the pre- and post-processing functions for the simulation, each group (or row), each segment, and the order function for each column in exactly the documented nesting and sequence, calling segments only where active (or as configured), and hands each callback contexts whose cash, position, debt, free cash, valuation price, value, returns, counters and records are those produced by the orders executed so far. "
  "The flexible variants process whatever column and order the user returns until told to stop. "
  "Row-wise and column-wise simulations of the same orders give the same orders and logs for each column.",
  ["programs", "schedules", "inputs"],
  "all call hierarchies: groups, shapes, active masks, call sequences, pre/post options, four simulators",
  "The call protocol is a nested state machine; tests check call order for one or two shapes and do not check what every callback saw.",
  ["portfolio/nb.py", "portfolio/enums.py", "portfolio/base.py"],
  [("simulators", "portfolio/nb.py: simulate_nb, simulate_row_wise_nb, flex_simulate_nb, flex_simulate_row_wise_nb"), ("contexts", "portfolio/enums.py: SimulationContext, SegmentContext, OrderContext, PostOrderContext"), ("arguments", "portfolio/base.py: Portfolio.from_order_func")],
  "calls received and context fields seen by user callbacks; order and log records")

p("P06", "Cash, assets, value and returns rebuilt from orders equal the simulated state",
  "The asset flow, assets, cash flow, cash, free cash, asset value, value, profit, return, exposure and benchmark series that a portfolio derives from its order records equal the account state the orders went through: at every bar, assets and cash are what the simulation held after that bar's last order, value is cash plus assets at the (filled) close, and totals, returns and exposures follow from those by their definitions. "
  "This holds for every column, for groups with and without cash sharing (grouped series being sums over the group's columns, or in simulation order the value after each order when asked), for long-only and short-only views, and for any initial cash.",
  ["histories", "configurations"],
  "all order histories, groupings, cash sharing settings, initial cash modes and views",
  "Tests compare fixed tables for a few portfolios; reconstruction errors depend on crossing zero, shorting, several orders per bar and NaN closes.",
  ["portfolio/nb.py", "portfolio/base.py"],
  [("reconstruction", "portfolio/nb.py: asset_flow_nb, cash_flow_nb, get_free_cash_diff_nb, value_in_sim_order_nb, total_profit_nb, returns_in_sim_order_nb, gross_exposure_nb, benchmark_value_nb"), ("methods", "portfolio/base.py: Portfolio.asset_flow .. Portfolio.total_benchmark_return")],
  "Portfolio methods versus log records of the same simulation")

p("P07", "Trades and positions partition the orders and conserve size, fees and profit",
  "Entry trades, exit trades and positions are exactly those obtained by walking through a column's orders: a position lasts from leaving zero until returning to or crossing zero, every entry (exit) order yields one entry (exit) trade of its own size, price and share of fees against the weighted average exit (entry) of its position, and what is still open is valued at the last close and marked open. "
  "Summed over a position's trades, sizes, fees and profits equal those of the position, and summed over a column, profits equal the column's total profit. "
  "Directions, open/closed status, returns, parent links, winning and losing streaks and the numbering of records follow from the same walk.",
  ["histories", "inputs"],
  "all sequences of orders: partial closes, reversals, accumulation, several orders per bar, fees that exceed profits",
  "Tests pin records for a couple of hand-made sequences; wrong averaging, splitting or rounding needs particular sequences of increases, decreases and reversals.",
  ["portfolio/nb.py", "portfolio/trades.py"],
  [("entry trades", "portfolio/nb.py: get_entry_trades_nb, fill_entry_trades_in_position_nb"), ("exit trades", "portfolio/nb.py: get_exit_trades_nb"), ("positions", "portfolio/nb.py: get_positions_nb, fill_position_record_nb"), ("streaks", "portfolio/nb.py: trade_winning_streak_nb, trade_losing_streak_nb")],
  "records of Portfolio.entry_trades, exit_trades, positions")

p("P08", "Order and log records are a faithful, complete account of the simulation",
  "Every filled order has exactly one order record and no other request has one; records are numbered in the sequence of execution, hold the executed size, price, fees and side with the right bar and column, and are laid out so that sorting by column and bar keeps execution order. "
  "When logging is on, there is exactly one log record per processed request, it holds the account before, the request as given, the result and the account after, one record's account after is the next one's account before, and it points to the order record it produced, if any. "
  "This holds for all ways of simulating, and record buffers that are too small raise an error instead of losing records.",
  ["histories", "configurations"],
  "all simulations from orders, signals and order functions (column-wise, row-wise, flexible), with any logging mask and buffer size",
  "Tests look at few records of few simulations; gaps, misnumbering or stale fields appear only for mixed logging masks, rejected orders and shared buffers.",
  ["portfolio/nb.py", "portfolio/orders.py", "portfolio/logs.py"],
  [("record filling", "portfolio/nb.py: fill_order_record_nb, fill_log_record_nb, process_order_nb, init_records_nb")],
  "order and log records of a portfolio")

p("P09", "Indexing and regrouping a portfolio commute with computing its metrics",
  "Selecting columns or groups of a portfolio (by label, position, mask or list) and then computing any per-column or per-group series, record set or metric gives the same as computing it on the whole portfolio and selecting afterwards. "
  "Regrouping without cash sharing changes only aggregation; columns and records keep their identity, and changing the grouping of a portfolio with cash sharing is refused.",
  ["configurations", "inputs"],
  "all selections and groupings of all portfolios, and all derived series and records",
  "Tests index one portfolio in a few ways; the mapping of records, initial cash, call sequence and groups must hold for every combination.",
  ["portfolio/base.py", "records/base.py", "records/nb.py", "base/array_wrapper.py", "base/column_grouper.py", "base/indexing.py"],
  [("portfolio indexing", "portfolio/base.py: Portfolio.indexing_func, Portfolio.regroup"), ("wrapper indexing", "base/array_wrapper.py: ArrayWrapper.indexing_func_meta"), ("record selection", "records/nb.py: record_col_range_select_nb, record_col_map_select_nb")],
  "Portfolio indexing results")

p("P10", "Mapped arrays and records select, sort, reduce and index consistently",
  "A mapped array or record set behaves as a finite sequence of (column, index, value) entries: selecting columns, filtering by mask, top-n and bottom-n per column or group, sorting by column and id, and chaining these in any order keep exactly the entries the operation describes with their own column, index and id; reducing, mapping and applying per column or group use exactly the entries of that column or group in their order, with the fill value for empty ones; conversion to a table puts each entry in its cell. "
  "The column map used internally always agrees with the entries, whether or not they are sorted.",
  ["inputs", "histories"],
  "all entry sets (unsorted, empty columns, duplicates), groupings and chains of operations",
  "Tests apply each operation once to one record array; agreement between cached column maps and reordered or filtered entries is a property of operation sequences.",
  ["records/base.py", "records/mapped_array.py", "records/col_mapper.py", "records/nb.py"],
  [("column map", "records/col_mapper.py: ColumnMapper; records/nb.py: col_range_nb, col_map_nb"), ("mapped arrays", "records/mapped_array.py: MappedArray"), ("records", "records/base.py: Records")],
  "results of MappedArray and Records methods", "entries, column range, column map")

p("P11", "Drawdowns and ranges of a series are exactly its maximal episodes",
  "The ranges built from a series of booleans or values are exactly its maximal runs of true or non-missing elements, with start, end (the first element after the run, or the last bar when still open) and status. "
  "The drawdown records of a price series are exactly its maximal episodes below a running maximum: peak, start (first bar below the peak), valley (first lowest bar), end (first bar back at or above the peak, or the last bar) with their values and status, and the quantities derived from them (drawdown, decline and recovery duration and returns, coverage, active drawdown, average and maximum) follow by definition. "
  "Missing values neither start nor break an episode beyond what is documented.",
  ["inputs"], "all price series and boolean series, including ties, missing values, monotone and one-bar series",
  "Tests check one price series; edge cases (ties with the peak, NaN at the ends or inside, last-bar recovery) are combinatorial.",
  ["generic/ranges.py", "generic/drawdowns.py", "generic/nb.py"],
  [("ranges", "generic/nb.py: find_ranges_nb, range_duration_nb, range_coverage_nb, ranges_to_mask_nb"), ("drawdowns", "generic/nb.py: get_drawdowns_nb, dd_* functions; generic/drawdowns.py")],
  "records and properties of Ranges and Drawdowns")

p("P12", "Signal generators place entries and exits exactly where documented",
  "Generating one array of signals calls the user function per column on the allowed window and sets exactly the elements it returns; generating exits from entries (or alternating entries and exits) restricts each call to the stretch from the previous signal (after the configured wait) up to the next entry (if asked) and, when alternating, to one signal at a time, so that with the one-signal options entries and exits strictly alternate. "
  "Stop-based exits appear at the first bar after the entry at which the stop is reached, and random exits or entries respect the requested count, probability and windows.",
  ["inputs", "programs", "configurations"],
  "all entry arrays, place functions, waits and options of exit generation, chains and stops",
  "Tests use one entry array and fixed functions; window boundaries, waits and chaining interact and off-by-one errors hide in edge positions.",
  ["signals/nb.py", "signals/factory.py", "signals/generators.py", "signals/accessors.py"],
  [("generation", "signals/nb.py: generate_nb, generate_ex_nb, generate_enex_nb"), ("stop exits", "signals/nb.py: stop_choice_nb, ohlc_stop_choice_nb"), ("random", "signals/nb.py: generate_rand_nb, rand_by_prob_choice_nb"), ("factory", "signals/factory.py: SignalFactory.from_choice_func")],
  "signals accessor methods and generated arrays")

p("P13", "Signal cleaning, ranking and ranges follow the sequence of signals",
  "Cleaning entries and exits keeps exactly the signals that a two-state machine (out, in) accepts, with simultaneous signals handled as configured; ranking numbers signals within partitions (runs) and partitions within resets exactly by position in sequence, so that first, nth and from-nth selections are those ranks. "
  "Ranges between signals, between two signal arrays, of partitions and between partitions connect exactly the documented pairs, and index, density and distance statistics follow from the same sequence.",
  ["inputs"], "all boolean arrays (pairs of arrays) with all reset and option settings",
  "Tests use one five-row table; errors depend on particular interleavings of signals, resets and simultaneous events.",
  ["signals/nb.py", "signals/accessors.py"],
  [("cleaning", "signals/nb.py: clean_enex_nb, clean_enex_1d_nb"), ("ranking", "signals/nb.py: rank_nb, sig_pos_rank_nb, part_pos_rank_nb"), ("ranges", "signals/nb.py: between_ranges_nb, between_two_ranges_nb, partition_ranges_nb, between_partition_ranges_nb"), ("nth", "signals/nb.py: nth_index_nb, norm_avg_index_nb")],
  "signals accessor methods")

p("P14", "Rolling, expanding, shifting and filling operations are causal and exact",
  "Rolling, expanding and exponentially weighted operations give at each bar the statistic of exactly the documented window ending at that bar (with missing values skipped and the minimum number of observations respected), shifts and fills move or repeat exactly the documented neighbours, and crossings are reported exactly at the bars where one series moves across the other. "
  "No operation other than those documented to look ahead lets a later bar change an earlier result, and columns never influence one another.",
  ["inputs", "configurations"], "all series with missing values, windows, minimum periods and options",
  "Tests compare with pandas on one array; boundary effects (NaN at the window edge, warm-up, wait, ties) depend on the input pattern.",
  ["generic/nb.py", "generic/accessors.py"],
  [("rolling", "generic/nb.py: rolling_*_nb, expanding_*_nb, ewm_*_nb, rolling_apply_nb"), ("shift and fill", "generic/nb.py: fshift_nb, bshift_nb, ffill_nb, bfill_nb, fillna_nb, diff_nb, pct_change_nb"), ("crossing", "generic/nb.py: crossed_above_nb, crossed_below_nb")],
  "generic accessor methods and compiled functions")

p("P15", "Splitters yield well-formed, ordered, non-overlapping train and test sets",
  "Splitting an index into ranges, rolling windows or expanding windows yields exactly the documented sets: each set is a contiguous stretch of the index inside the requested range, sets of one split follow each other without overlap in the requested order and lengths, rolling windows move forward monotonically with the requested number and length, expanding windows start at the beginning and grow, and applying a split to an object takes exactly those rows.",
  ["inputs", "configurations"], "all index lengths, window counts and lengths, set lengths (absolute and relative) and sides",
  "Tests enumerate a few lengths; rounding of relative lengths and of window offsets creates overlap, gaps or lost rows only for particular sizes.",
  ["generic/splitters.py", "generic/accessors.py"],
  [("splitters", "generic/splitters.py: split_ranges_into_sets, RangeSplitter, RollingSplitter, ExpandingSplitter"), ("applying", "generic/accessors.py: GenericAccessor.split, range_split, rolling_split, expanding_split")],
  "ranges returned by splitters and accessor splits")

p("P16", "Broadcasting gives every input the same shape, index and columns, losslessly",
  "Broadcasting arrays, series and frames together gives each the same shape, with each result element equal to the input element that the broadcasting rules select, and with row and column labels combined as configured (kept, stacked, strict, or taken from one input); inputs that cannot be combined are refused. "
  "Selecting an element of an unbroadcast array through flexible indexing equals selecting it from the broadcast array, for every input shape and orientation.",
  ["inputs", "configurations"], "all combinations of scalars, one- and two-dimensional arrays, series, frames and label options",
  "Tests list selected pairs of shapes; the rules must agree for every combination of shapes, labels and options and for the lazy (flexible) form used by all simulators.",
  ["base/reshape_fns.py", "base/index_fns.py"],
  [("broadcast", "base/reshape_fns.py: broadcast, broadcast_index, wrap_broadcasted"), ("flexible indexing", "base/reshape_fns.py: flex_choose_i_and_col_nb, flex_select_auto_nb"), ("index operations", "base/index_fns.py: stack_indexes, combine_indexes, drop_duplicate_levels, align_indexes")],
  "results of broadcast and of flexible selection")

p("P17", "Column grouping and wrapper indexing keep rows, columns and groups aligned",
  "A grouping of columns assigns each column to exactly one group; group lengths, group indices, group names and per-group column selections all agree, and sorted or contiguous groupings are recognised correctly. "
  "Indexing a wrapper by rows, columns or groups yields the rows, columns and groups that the same indexing yields on a frame with those labels, reports positions that select the matching data, and wrapping or reducing an array puts each value under its own row, column or group label.",
  ["inputs", "configurations"], "all groupings (any keys, order, contiguity) and all selections",
  "Tests use one four-column example; alignment must hold for any arrangement of groups and any indexer.",
  ["base/column_grouper.py", "base/array_wrapper.py", "base/indexing.py"],
  [("grouper", "base/column_grouper.py: ColumnGrouper, group_by_to_index, get_groups_and_index, get_group_lens_nb"), ("wrapper", "base/array_wrapper.py: ArrayWrapper.indexing_func_meta, wrap, wrap_reduced"), ("indexing", "base/indexing.py: LocBase, iLoc, Loc, ParamLoc")],
  "grouper and wrapper methods")

p("P18", "Running an indicator over many parameters equals running it once for each",
  "Running an indicator over lists of parameters and several input columns yields, for each parameter combination and input column, the same output as running it with that combination on that column alone, in the documented order of combinations (aligned, cartesian product or all pairs) with matching column labels and parameter lookups. "
  "Caching, per-column parameters, speed-up options and repeated combinations never change the outputs, in-outputs never alter the user's inputs, and selecting by parameter value returns exactly the columns computed with it.",
  ["inputs", "configurations", "programs"], "all parameter lists, products, per-column settings, caching options and input shapes",
  "Tests verify shapes and a few values with a toy function; agreement of labels, order, caching and data is a relation between runs.",
  ["indicators/factory.py", "utils/params.py", "base/combine_fns.py"],
  [("pipeline", "indicators/factory.py: run_pipeline, perform_init_checks, prepare_params, build_columns"), ("factory", "indicators/factory.py: IndicatorFactory.from_custom_func, from_apply_func, run, run_combs"), ("params", "utils/params.py; indicators/factory.py: create_param_product")],
  "outputs, columns and parameter indexers of indicator classes")

p("P19", "Built-in indicators compute their textbook formulas on past data only",
  "Moving averages, moving standard deviation, Bollinger bands, RSI, stochastic oscillator, MACD, ATR and OBV give at every bar the value of their published recurrence over the bars up to and including it, with missing results exactly while the window has not filled, for simple and exponential smoothing. "
  "No later bar influences an earlier value and columns are independent.",
  ["inputs", "configurations"], "all price series, windows and smoothing settings",
  "Tests pin outputs for one five-bar series; warm-up handling, recurrences and look-ahead depend on series and window together.",
  ["indicators/nb.py", "indicators/basic.py"],
  [("formulas", "indicators/nb.py: ma_nb, mstd_nb, bb_apply_nb, rsi_apply_nb, stoch_apply_nb, macd_apply_nb, true_range_nb, atr_apply_nb, obv_custom_nb"), ("classes", "indicators/basic.py")],
  "outputs of the built-in indicators")

p("P20", "Label generators describe exactly the documented future window",
  "Look-ahead labels (future mean, minimum, maximum, standard deviation, fixed, mean and extrema based labels, trend and breakout labels) give at each bar the documented function of that bar and exactly the documented later bars - with missing results where the future is not available - and never depend on earlier bars outside the documented window. "
  "Local extrema alternate between peaks and valleys separated by at least the given thresholds, and trend labels follow from those extrema.",
  ["inputs", "configurations"], "all price series, windows, waits and thresholds",
  "Tests pin one series; extrema confirmation and windows are state machines over the whole series.",
  ["labels/nb.py", "labels/generators.py"],
  [("windows", "labels/nb.py: future_mean_apply_nb, future_std_apply_nb, future_min_apply_nb, future_max_apply_nb, fixed_labels_apply_nb, mean_labels_apply_nb"), ("extrema and trends", "labels/nb.py: local_extrema_apply_nb, bn_trend_labels_nb, bn_cont_trend_labels_nb, pct_trend_labels_nb, breakout_labels_nb")],
  "outputs of the label generators")

p("P21", "Return metrics follow their definitions and rolling ones match each window",
  "Total, cumulative and final value, drawdown, win rates, capture and other ratio metrics of a return series equal their definitions, skipping or propagating missing returns as documented; a rolling metric at a bar equals the metric of the window of returns ending at that bar, with missing results until enough observations exist. "
  "Turning a value series into returns and accumulating the returns restores the series.",
  ["inputs", "configurations"], "all return series with missing values, windows, minimum periods and annualization factors",
  "Tests compare with another library on one series; agreement of rolling and plain forms and of NaN handling is a relation over all windows.",
  ["returns/nb.py", "returns/accessors.py"],
  [("metrics", "returns/nb.py: get_return_nb, cum_returns_1d_nb, cum_returns_final_nb, max_drawdown_nb, omega_ratio_nb, sharpe_ratio_nb, ..."), ("rolling", "returns/nb.py: rolling_*_nb; returns/accessors.py: ReturnsAccessor")],
  "returns accessor methods")

p("P22", "Data keeps symbols aligned and merges updates without loss or duplication",
  "Data built from several symbols has one index and one set of columns for all symbols, combined from the symbols' own as configured (missing rows and columns filled, dropped or refused), with each cell holding the symbol's own value at that label. "
  "An update appends new rows, replaces the overlapping ones by the newly fetched values and leaves all earlier rows as they were, for any sequence of updates; indexing and selecting symbols select the same rows of every symbol.",
  ["histories", "configurations", "inputs"], "all sets of symbols with overlapping indexes, missing-data settings and sequences of updates",
  "Tests align and update one mocked source a few times; merging depends on the history of updates and the overlap pattern of indexes.",
  ["data/base.py", "data/updater.py"],
  [("alignment", "data/base.py: Data.align_index, Data.align_columns, Data.from_data"), ("update", "data/base.py: Data.update, Data.download"), ("wrapping", "data/base.py: Data.indexing_func, concat, get, select")],
  "Data.data, Data.get, Data.update results", "per symbol: last index, stored rows")

p("P23", "Scheduled jobs run when due, in order, and stop when cancelled",
  "Jobs registered with the scheduler by interval, unit, weekday or time of day are due exactly at the documented times; each run executes every due job, tagged jobs can be cleared as a whole, and a job that asks to be cancelled, or whose time to stop has come, never runs again. "
  "A scheduled data updater updates on each run, keeps the data and counts of the updates that succeeded, and stops when the update asks it to.",
  ["schedules", "histories", "programs"], "all sequences of registration, clock advances, runs, cancellations and failures",
  "Tests check the registered job's text and one run; due times and cancellation are properties of sequences of clock steps.",
  ["utils/schedule_.py", "data/updater.py"],
  [("registration", "utils/schedule_.py: ScheduleManager.every"), ("async and cancel", "utils/schedule_.py: AsyncScheduler, AsyncJob, CancelledError handling"), ("updater", "data/updater.py: DataUpdater.update_every, update")],
  "job runs observed under a controlled clock")

p("P24", "Configurations enforce freezing, merge, copy, reset and restore as documented",
  "A configuration with frozen keys rejects adding or removing keys, a read-only one rejects every change, and neither leaves a partial change behind; nested updates and merges change exactly the given leaves and treat atomic dictionaries as single values. "
  "Copies are independent to the documented depth, resetting restores the initial (or last checkpoint) content, and pickling and reloading gives back equal contents and settings, after any sequence of operations.",
  ["histories", "programs"], "all sequences of set, update, merge, delete, clear, reset, checkpoint, copy and pickling operations on nested configurations with any flags",
  "Tests run each operation once; aliasing between a configuration, its copies and its reset state only shows after particular sequences.",
  ["utils/config.py"],
  [("config", "utils/config.py: Config, copy_dict, update_dict, merge_dicts"), ("configured", "utils/config.py: Configured, Pickleable")],
  "contents and errors of Config operations", "contents, reset contents, flags")

p("P25", "Cached attributes return what recomputation would, under every caching setting",
  "A cached property or method returns the value its function would return for those arguments, calls the function again only when no cached value for the same object, function and arguments is present and caching is enabled for it, and is enabled or disabled exactly by the global switch and the highest-ranked matching whitelist and blacklist conditions. "
  "Clearing caches, indexing or copying an object never exposes another object's or another argument set's value.",
  ["histories", "configurations"], "all sequences of calls, clears, setting changes and conditions over several instances, classes, functions and argument sets",
  "Tests toggle one setting at a time on one class; precedence among conditions and separation of caches depend on combinations and call histories.",
  ["utils/decorators.py"],
  [("conditions", "utils/decorators.py: CacheCondition, should_cache, is_caching_enabled"), ("caches", "utils/decorators.py: cached_property, cached_method, get_kv_hash")],
  "number of function calls and values returned", "cache contents per instance; enabled flag; conditions")

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
