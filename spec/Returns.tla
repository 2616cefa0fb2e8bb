------------------------------- MODULE Returns ------------------------------
(* Metrics of a series of returns.  A metric is a function of the returns w,    *)
(* the returns b of a benchmark over the same bars, and the settings k: bars    *)
(* per year, risk-free and required return, degrees of freedom, alpha of the    *)
(* scaling law, cutoff.  Its rolling form is that function of each window.      *)
(* "any": not defined by exact arithmetic alone.                                *)
EXTENDS Rolling
Plus1(s) == [i \in 1..Len(s) |-> NAdd("1", s[i])]
Final1(w) == Prod(Plus1(Known(w)))
Total(w) == NSub(Final1(w), "1")
(* accumulated from a start value; from 0 it is the total return so far *)
Cum(w, start) == [i \in 1..Len(w) |-> LET f == Final1(SubSeq(w, 1, i)) IN IF NEq(start, "0") THEN NSub(f, "1") ELSE NMul(f, start)]
Ret1(a, b) == IF NEq(a, "0") THEN (IF NEq(b, "0") THEN "0" ELSE IF NIsNaN(b) THEN "nan" ELSE IF NGt(b, "0") THEN "inf" ELSE "-inf")
              ELSE LET q == NDiv(NSub(b, a), a) IN IF NLt(a, "0") THEN NNeg(q) ELSE q
OfValue(v, init) == [i \in 1..Len(v) |-> Ret1(IF i = 1 THEN init ELSE v[i - 1], v[i])]
Drawdown(w) == LET c == TLCEval(Cum(w, "1")) IN [i \in 1..Len(w) |-> NSub(NDiv(c[i], Fold(SubSeq(c, 1, i), TRUE)), "1")]
Lowest(s) == IF \E i \in 1..Len(s) : NIsNaN(s[i]) THEN "nan" ELSE Fold(s, FALSE)
MaxDD(w) == Lowest(TLCEval(Drawdown(w)))
Yearly(w, k) == IF w = <<>> THEN "nan" ELSE NSub(NPow(Final1(w), NDiv(k.ann, NNum(Len(w)))), "1")
Less(w, x) == [i \in 1..Len(w) |-> NSub(w[i], x)]
Std(w, ddof) == LET v == Var(Known(w), ddof) IN IF NIsNaN(v) THEN "nan" ELSE NSqrt(v)
OrInf(a, d) == IF NEq(d, "0") THEN "inf" ELSE NDiv(a, d)
Vol(w, k) == IF Len(w) < 2 THEN "nan" ELSE NMul(Std(w, k.ddof), NPow(k.ann, NDiv("1", k.levy)))
Calmar(w, k) == LET d == MaxDD(w) IN IF NEq(d, "0") THEN "nan" ELSE NDiv(Yearly(w, k), NAbs(d))
Omega(w, k) ==
    LET thr == IF NEq(k.ann, "1") THEN k.rr ELSE IF NEq(k.rr, "0") THEN "0" ELSE NSub(NPow(NAdd("1", k.rr), NDiv("1", k.ann)), "1")
        x == Known(Less(w, NAdd(k.rf, thr)))
    IN OrInf(NSum(SelectSeq(x, LAMBDA v : NGt(v, "0"))), NNeg(NSum(SelectSeq(x, LAMBDA v : NLt(v, "0")))))
Sharpe(w, k) ==
    IF Len(w) < 2 THEN "nan"
    ELSE LET x == Less(w, k.rf) IN NMul(OrInf(Mean(Known(x)), Std(x, k.ddof)), NSqrt(k.ann))
Downside(w, k) ==
    LET x == Known(Less(w, k.rr)) m == Mean([i \in 1..Len(x) |-> IF NGt(x[i], "0") THEN "0" ELSE Sq(x[i])])
    IN IF NIsNaN(m) THEN "nan" ELSE NSqrt(NMul(m, k.ann))
Sortino(w, k) == IF Len(w) < 2 THEN "nan" ELSE OrInf(NMul(Mean(Known(Less(w, k.rr))), k.ann), Downside(w, k))
Active(w, b) == [i \in 1..Len(w) |-> NSub(w[i], b[i])]
Information(w, b, k) == IF Len(w) < 2 THEN "nan" ELSE OrInf(Mean(Known(Active(w, b))), Std(Active(w, b), k.ddof))
(* covariance with the benchmark by its variance, over the bars known in both; *)
(* the variance over the bars where the returns are known                      *)
Beta(w, b) ==
    IF Len(w) < 2 THEN "nan"
    ELSE LET ind == [i \in 1..Len(w) |-> IF NIsNaN(w[i]) THEN "nan" ELSE b[i]]
             res == TLCEval(Less(ind, Mean(Known(ind))))
             var == Mean(LET q == Known(res) IN [i \in 1..Len(q) |-> Sq(q[i])])
         IN IF NIsNaN(var) \/ NEq(var, "0") THEN "nan" ELSE NDiv(Mean(Known([i \in 1..Len(w) |-> NMul(res[i], w[i])])), var)
Alpha(w, b, k) ==
    IF Len(w) < 2 THEN "nan"
    ELSE LET beta == Beta(w, b)
             x == Known([i \in 1..Len(w) |-> NSub(NSub(w[i], k.rf), NMul(beta, NSub(b[i], k.rf)))])
             m == NAdd(Mean(x), "1")
         (* whether a vanishing base is below zero is not decided *)
         IN IF ~NIsNaN(m) /\ NLe(NAbs(m), "1/1000000000") THEN "any" ELSE NSub(NPow(m, k.ann), "1")
RECURSIVE Insert(_, _), Sorted(_)
Insert(s, v) == IF s = <<>> THEN <<v>> ELSE IF NLe(v, Head(s)) THEN <<v>> \o s ELSE <<Head(s)>> \o Insert(Tail(s), v)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(TLCEval(Sorted(Tail(s))), Head(s))
(* between the two nearest of the sorted known returns *)
Quant(w, q) ==
    LET s == TLCEval(Sorted(Known(w))) at == NMul(q, NNum(Len(s) - 1)) f == NFloor(at) i == NInt(f) + 1
    IN IF s = <<>> THEN "nan" ELSE IF i >= Len(s) THEN s[Len(s)] ELSE NAdd(s[i], NMul(NSub(at, f), NSub(s[i + 1], s[i])))
Tail5(w) ==
    LET p == Quant(w, "1/20") IN
    IF Known(w) = <<>> THEN "nan"
    ELSE IF NLe(NAbs(p), "1/1000000000000") THEN (LET s == TLCEval(Sorted(Known(w))) IN IF NEq(s[1], "0") /\ (Len(s) = 1 \/ NEq(s[2], "0")) /\ Len(s) <= 20 THEN "inf" ELSE "any")
    ELSE NDiv(NAbs(Quant(w, "19/20")), NAbs(p))
(* the mean of the lowest returns, a share of all bars; missing ones rank last *)
CVaR(w, k) ==
    IF w = <<>> THEN "nan"
    ELSE LET s == TLCEval(Sorted(Known(w))) n == NInt(NFloor(NMul(k.cutoff, NNum(Len(w) - 1)))) + 1
         IN IF n > Len(s) THEN "nan" ELSE Mean(SubSeq(s, 1, n))
Ratio(a, d, n) == IF NIsNaN(d) \/ NIsNaN(a) THEN "nan" ELSE IF NLe(NAbs(d), "1/1000000000") THEN (IF NEq(d, "0") /\ n <= 4 THEN "inf" ELSE "any") ELSE NDiv(a, d)
Capture(w, b, k) == Ratio(Yearly(w, k), Yearly(b, k), Len(w))
RECURSIVE Where(_, _, _, _)
Where(w, b, up, i) == IF i > Len(w) THEN <<>> ELSE (IF (IF up THEN NGt(b[i], "0") ELSE NLt(b[i], "0")) THEN <<w[i]>> ELSE <<>>) \o Where(w, b, up, i + 1)
Captured(w, b, up, k) == LET x == Where(w, b, up, 1) y == Where(b, b, up, 1) IN IF x = <<>> THEN "nan" ELSE Ratio(Yearly(x, k), Yearly(y, k), Len(x))
Metric(f, w, b, k) ==
    CASE f = "total" -> Total(w)
      [] f = "annualized" -> Yearly(w, k)
      [] f = "annualized_volatility" -> Vol(w, k)
      [] f = "calmar_ratio" -> Calmar(w, k)
      [] f = "omega_ratio" -> Omega(w, k)
      [] f = "sharpe_ratio" -> Sharpe(w, k)
      [] f = "downside_risk" -> Downside(w, k)
      [] f = "sortino_ratio" -> Sortino(w, k)
      [] f = "information_ratio" -> Information(w, b, k)
      [] f = "beta" -> Beta(w, b)
      [] f = "alpha" -> Alpha(w, b, k)
      [] f = "tail_ratio" -> Tail5(w)
      [] f = "common_sense_ratio" -> LET t == Tail5(w) IN IF t = "any" THEN t ELSE NMul(t, NAdd("1", Yearly(w, k)))
      [] f = "value_at_risk" -> Quant(w, k.cutoff)
      [] f = "cond_value_at_risk" -> CVaR(w, k)
      [] f = "capture" -> Capture(w, b, k)
      [] f = "up_capture" -> Captured(w, b, TRUE, k)
      [] f = "down_capture" -> Captured(w, b, FALSE, k)
      [] f = "max_drawdown" -> MaxDD(w)
AllMetrics == <<"total", "annualized", "annualized_volatility", "calmar_ratio", "omega_ratio", "sharpe_ratio", "downside_risk", "sortino_ratio", "information_ratio", "beta", "alpha",
                "tail_ratio", "common_sense_ratio", "value_at_risk", "cond_value_at_risk", "capture", "up_capture", "down_capture", "max_drawdown">>
RollMetric(f, x, b, k, win, minp) ==
    [i \in 1..Len(x) |-> LET w == Win(x, i, win) IN IF Len(Known(w)) < minp THEN "nan" ELSE Metric(f, w, Win(b, i, win), k)]
=============================================================================
