------------------------------ MODULE Episodes ------------------------------
(* Ranges and drawdowns of a series, bar by bar.  Bars are counted from 0;      *)
(* a range is [start, end, open], a drawdown adds peak, valley and values.      *)
EXTENDS Integers, Sequences, FiniteSets, Num, TLC
(* ---------------------------------------------------------------- ranges *)
RInit == [from |-> -1, done |-> <<>>, at |-> -1]
RStep(r, gap) ==
    LET i == r.at + 1 IN
    [at |-> i, from |-> IF gap THEN -1 ELSE IF r.from < 0 THEN i ELSE r.from,
     done |-> IF gap /\ r.from >= 0 THEN Append(r.done, [start |-> r.from, end |-> i, open |-> FALSE]) ELSE r.done]
RangesOf(r) == IF r.from >= 0 THEN Append(r.done, [start |-> r.from, end |-> r.at, open |-> TRUE]) ELSE r.done
(* ------------------------------------------------------------- drawdowns *)
DInit == [at |-> -1, last |-> -1, lv |-> "nan", peak |-> -1, pv |-> "nan", valley |-> -1, vv |-> "nan", done |-> <<>>]
Drawdown(d, end, ev, open) == [peak |-> d.peak, start |-> d.peak + 1, valley |-> d.valley, end |-> end, pv |-> d.pv, vv |-> d.vv, ev |-> ev, open |-> open]
DStep(d, v) ==
    LET i == d.at + 1 under == d.valley >= 0 e == [d EXCEPT !.at = i, !.last = i, !.lv = v] IN
    IF NIsNaN(v) THEN [d EXCEPT !.at = i]
    ELSE IF d.peak < 0 \/ NGe(v, d.pv) THEN [e EXCEPT !.peak = i, !.pv = v, !.valley = -1, !.vv = "nan", !.done = IF under THEN Append(@, Drawdown(d, i, v, FALSE)) ELSE @]
    ELSE IF ~under \/ NLt(v, d.vv) THEN [e EXCEPT !.valley = i, !.vv = v] ELSE e
(* a drawdown still running ends at the last bar that has a value *)
DrawdownsOf(d) == IF d.valley >= 0 THEN Append(d.done, Drawdown(d, d.last, d.lv, TRUE)) ELSE d.done
RECURSIVE RRun(_, _)
RRun(x, k) == IF k = 0 THEN RInit ELSE RStep(RRun(x, k - 1), x[k])
RECURSIVE DRun(_, _)
DRun(x, k) == IF k = 0 THEN DInit ELSE DStep(DRun(x, k - 1), x[k])
(* -------------------------------------------------------- what they give *)
Covers(r, i) == r.start <= i /\ (i < r.end \/ (r.open /\ i = r.end))
Duration(r) == r.end - r.start + (IF r.open THEN 1 ELSE 0)
Known(s) == SelectSeq(s, LAMBDA x : ~NIsNaN(x))
Mean(s) == LET k == Known(s) IN IF k = <<>> THEN "nan" ELSE NDiv(NSum(k), NNum(Len(k)))
RECURSIVE Fold(_, _)
Fold(k, max) == IF k = <<>> THEN "nan" ELSE IF Len(k) = 1 THEN k[1] ELSE LET r == Fold(Tail(k), max) IN IF (IF max THEN NGt(r, k[1]) ELSE NLt(r, k[1])) THEN r ELSE k[1]
Max(s) == Fold(Known(s), TRUE)
Min(s) == Fold(Known(s), FALSE)
Each(rs, F(_)) == [k \in 1..Len(rs) |-> F(rs[k])]
Cover(rs, n) == [i \in 1..n |-> Cardinality({k \in 1..Len(rs) : Covers(rs[k], i - 1)})]
More(c, m) == Cardinality({i \in 1..Len(c) : c[i] > m})
Ns(x) == NNum(x)
RangeSum(rs, n, ncols) ==
    LET c == Cover(rs, n) d == Each(rs, LAMBDA r : Ns(Duration(r))) IN
    [count |-> Ns(Len(rs)), dur |-> d, avgdur |-> Mean(d), maxdur |-> Max(d), mask |-> [i \in 1..n |-> c[i] > 0],
     cov |-> IF rs = <<>> THEN <<"nan", "nan", "nan", "nan">>
             ELSE <<Ns(More(c, 0)), NDiv(Ns(More(c, 0)), Ns(n * ncols)), Ns(More(c, 1)), NDiv(Ns(More(c, 1)), Ns(More(c, 0)))>>,
     open |-> Ns(Len(SelectSeq(rs, LAMBDA r : r.open))), closed |-> Ns(Len(SelectSeq(rs, LAMBDA r : ~r.open)))]
Depth(r) == NDiv(NSub(r.vv, r.pv), r.pv)
Decline(r) == r.valley - r.start + 1
Recovery(r) == r.end - r.valley
Rebound(r) == NDiv(NSub(r.ev, r.vv), r.vv)
DrawSum(rs) ==
    LET dd == Each(rs, Depth) rr == Each(rs, Rebound)
        act == SelectSeq(rs, LAMBDA r : r.open) rec == SelectSeq(rs, LAMBDA r : ~r.open)
        Last(F(_)) == IF act = <<>> THEN "nan" ELSE F(act[Len(act)])
    IN  [dd |-> dd, rr |-> rr, decline |-> Each(rs, LAMBDA r : Ns(Decline(r))), recovery |-> Each(rs, LAMBDA r : Ns(Recovery(r))),
         ratio |-> Each(rs, LAMBDA r : NDiv(Ns(Recovery(r)), Ns(Decline(r)))),
         red |-> <<Mean(dd), Min(dd), Mean(rr), Max(rr)>>,
         active |-> <<Last(LAMBDA r : NDiv(NSub(r.ev, r.pv), r.pv)), Last(LAMBDA r : Ns(Duration(r))), Last(LAMBDA r : NDiv(NSub(r.ev, r.vv), NSub(r.pv, r.vv))),
                      Last(Rebound), Last(LAMBDA r : Ns(Recovery(r)))>>,
         recovered |-> <<Mean(Each(rec, Depth)), Min(Each(rec, Depth)), Max(Each(rec, Rebound)), Mean(Each(rec, Rebound)),
                         Max(Each(rec, LAMBDA r : Ns(Duration(r)))), Mean(Each(rec, LAMBDA r : Ns(Duration(r)))),
                         Max(Each(rec, LAMBDA r : Ns(Recovery(r)))), Mean(Each(rec, LAMBDA r : Ns(Recovery(r)))),
                         Mean(Each(rec, LAMBDA r : NDiv(Ns(Recovery(r)), Ns(Decline(r)))))>>]
(* the drawdown of every bar: its value against the running maximum *)
RECURSIVE RunMax(_, _)
RunMax(x, k) == IF k = 0 THEN "nan" ELSE LET m == RunMax(x, k - 1) IN IF NIsNaN(m) \/ NGt(x[k], m) THEN x[k] ELSE m
Depths(x) == [k \in 1..Len(x) |-> NSub(NDiv(x[k], RunMax(x, k)), "1")]
=============================================================================
