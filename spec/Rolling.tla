------------------------------- MODULE Rolling ------------------------------
(* Operations along a series.  Every result at bar i is a function of the       *)
(* window of bars that ends there; only bfill and bshift look ahead.            *)
EXTENDS Integers, Sequences, FiniteSets, Num, TLC
Known(s) == SelectSeq(s, LAMBDA v : ~NIsNaN(v))
Win(x, i, w) == SubSeq(x, IF i > w THEN i - w + 1 ELSE 1, i)
RECURSIVE Fold(_, _)
Fold(k, max) == IF k = <<>> THEN "nan" ELSE IF Len(k) = 1 THEN k[1] ELSE LET r == Fold(Tail(k), max) IN IF (IF max THEN NGt(r, k[1]) ELSE NLt(r, k[1])) THEN r ELSE k[1]
Mean(k) == IF k = <<>> THEN "nan" ELSE NDiv(NSum(k), NNum(Len(k)))
Sq(v) == NMul(v, v)
Dev(k) == NSum([i \in 1..Len(k) |-> Sq(NSub(k[i], Mean(k)))])
Var(k, ddof) == IF Len(k) <= ddof THEN "nan" ELSE NDiv(Dev(k), NNum(Len(k) - ddof))
(* a statistic of the known values of a window, if there are enough of them *)
Stat(f, k, o) == CASE f = "min" -> Fold(k, FALSE) [] f = "max" -> Fold(k, TRUE) [] f = "mean" -> Mean(k) [] f = "var" -> Var(k, o.ddof)
                   [] f = "sum" -> NSum(k) [] f = "range" -> IF k = <<>> THEN "nan" ELSE NSub(Fold(k, TRUE), Fold(k, FALSE))
Roll(o, x) == [i \in 1..Len(x) |-> LET k == Known(Win(x, i, o.w)) IN IF Len(k) < o.m THEN "nan" ELSE Stat(o.f, k, o)]
(* exponential weights: all decay at every bar, an observation comes in with   *)
(* weight 1, or with alpha against the rest                                    *)
Scale(ws, q) == [j \in 1..Len(ws) |-> NMul(ws[j], q)]
RECURSIVE Weights(_, _, _, _)
Weights(x, i, a, adjust) ==
    IF i = 0 THEN <<>>
    ELSE LET old == Scale(Weights(x, i - 1, a, adjust), NSub("1", a)) IN
         IF NIsNaN(x[i]) THEN old
         ELSE LET new == Append(old, IF adjust \/ old = <<>> THEN "1" ELSE a) IN IF adjust THEN new ELSE Scale(new, NDiv("1", NSum(new)))
Ewm(o, x) ==
    LET a == NDiv("2", NNum(o.span + 1)) IN
    [i \in 1..Len(x) |->
        LET k == Known(SubSeq(x, 1, i)) last == CHOOSE j \in 0..i : (j = 0 \/ ~NIsNaN(x[j])) /\ \A q \in j + 1..i : NIsNaN(x[q])
            w == TLCEval(Weights(x, last, a, o.adjust)) s == NSum(w)
            mean == NDiv(NSum([j \in 1..Len(k) |-> NMul(w[j], k[j])]), s)
            var == NDiv(NSum([j \in 1..Len(k) |-> NMul(w[j], Sq(NSub(k[j], mean)))]), s)
            free == NSub(Sq(s), NSum([j \in 1..Len(w) |-> Sq(w[j])]))
        IN  IF k = <<>> \/ Len(k) < o.m THEN "nan" ELSE IF o.f = "mean" THEN mean ELSE IF Len(k) = 1 \/ ~NGt(free, "0") THEN "nan" ELSE NMul(NDiv(Sq(s), free), var)]
At(x, i, fill) == IF i >= 1 /\ i <= Len(x) THEN x[i] ELSE fill
LastKnown(x, i) == LET k == Known(SubSeq(x, 1, i)) IN IF k = <<>> THEN "nan" ELSE k[Len(k)]
Rev(x) == [i \in 1..Len(x) |-> x[Len(x) + 1 - i]]
RECURSIVE Prod(_)
Prod(k) == IF k = <<>> THEN "1" ELSE NMul(Head(k), Prod(Tail(k)))
(* x crosses above y: above now, not above before, and below at some bar since  *)
(* a value was last missing; with a wait, it has stayed above that many bars    *)
Ok2(x, y, i) == ~NIsNaN(x[i]) /\ ~NIsNaN(y[i])
Above(x, y, i) == Ok2(x, y, i) /\ NGt(x[i], y[i])
CrossAt(x, y, i) == i > 1 /\ Above(x, y, i) /\ ~Above(x, y, i - 1) /\ \E j \in 1..(i - 1) : NLt(x[j], y[j]) /\ \A k \in j..i : Ok2(x, y, k)
Crossed(x, y, wait) == [i \in 1..Len(x) |-> i - wait >= 1 /\ CrossAt(x, y, i - wait) /\ \A k \in (i - wait)..i : Above(x, y, k)]
Series(o, x, y) ==
    CASE o.op = "roll" -> Roll(o, x)
      [] o.op = "expand" -> Roll([o EXCEPT !.w = Len(x)], x)
      [] o.op = "ewm" -> Ewm(o, x)
      [] o.op = "fshift" -> [i \in 1..Len(x) |-> At(x, i - o.n, o.fill)]
      [] o.op = "bshift" -> [i \in 1..Len(x) |-> At(x, i + o.n, o.fill)]
      [] o.op = "diff" -> [i \in 1..Len(x) |-> NSub(x[i], At(x, i - o.n, "nan"))]
      [] o.op = "change" -> [i \in 1..Len(x) |-> IF i <= o.n THEN "nan" ELSE NSub(NDiv(x[i], x[i - o.n]), "1")]
      [] o.op = "ffill" -> [i \in 1..Len(x) |-> LastKnown(x, i)]
      [] o.op = "bfill" -> Rev([i \in 1..Len(x) |-> LastKnown(Rev(x), i)])
      [] o.op = "fillna" -> [i \in 1..Len(x) |-> IF NIsNaN(x[i]) THEN o.fill ELSE x[i]]
      [] o.op = "cumsum" -> [i \in 1..Len(x) |-> NSum(Known(SubSeq(x, 1, i)))]
      [] o.op = "cumprod" -> [i \in 1..Len(x) |-> Prod(Known(SubSeq(x, 1, i)))]
      [] o.op = "above" -> LET c == Crossed(x, y, o.n) IN [i \in 1..Len(x) |-> IF c[i] THEN "1" ELSE "0"]
      [] o.op = "below" -> LET c == Crossed(y, x, o.n) IN [i \in 1..Len(x) |-> IF c[i] THEN "1" ELSE "0"]
      [] o.op = "map" -> [i \in 1..Len(x) |-> IF NIsNaN(x[i]) THEN "nan" ELSE NAdd(Sq(x[i]), "1")]
      [] o.op = "filter" -> [i \in 1..Len(x) |-> IF NIsNaN(x[i]) \/ ~NGt(x[i], o.fill) THEN "nan" ELSE x[i]]
      [] o.op = "rebase" -> LET k == Known(x) IN
            [i \in 1..Len(x) |-> IF k = <<>> THEN "nan" ELSE NMul(NDiv(IF NIsNaN(LastKnown(x, i)) THEN k[1] ELSE LastKnown(x, i), k[1]), o.fill)]
Ahead(o) == o.op \in {"bshift", "bfill", "rebase"}
(* ------------------------------------------------------ values of a unit *)
RECURSIVE Asc(_)
Least(vs) == CHOOSE i \in 1..Len(vs) : \A j \in 1..Len(vs) : NLe(vs[i], vs[j])
Asc(vs) == IF vs = <<>> THEN <<>> ELSE LET b == Least(vs) IN <<vs[b]>> \o Asc(SubSeq(vs, 1, b - 1) \o SubSeq(vs, b + 1, Len(vs)))
(* linear interpolation between the order statistics; q a number *)
Quantile(k, q) == IF k = <<>> THEN "nan" ELSE
    LET a == Asc(k) p == NMul(q, NNum(Len(k) - 1)) f == NInt(NFloor(p)) r == NSub(p, NNum(f)) IN
    IF f + 1 >= Len(k) THEN a[Len(k)] ELSE NAdd(a[f + 1], NMul(r, NSub(a[f + 2], a[f + 1])))
First(v, x) == CHOOSE i \in 1..Len(v) : NEq(v[i], x) /\ \A j \in 1..(i - 1) : ~NEq(v[j], x)
(* v: the values of a unit in row order, w of them in each row *)
Reduce(o, v, w) ==
    LET k == Known(v) IN
    CASE o.f \in {"min", "max", "mean", "var"} -> <<Stat(o.f, k, o)>>
      [] o.f = "median" -> <<Quantile(k, "1/2")>>
      [] o.f = "sum" -> <<NSum(k)>>
      [] o.f = "prod" -> <<Prod(k)>>
      [] o.f = "count" -> <<NNum(Len(k))>>
      [] o.f \in {"idxmin", "idxmax"} -> IF k = <<>> THEN <<"nan">> ELSE <<NNum((First(v, Fold(k, o.f = "idxmax")) - 1) \div w)>>
      [] o.f = "describe" -> <<NNum(Len(k)), Mean(k), Var(k, o.ddof), Fold(k, FALSE)>> \o [i \in 1..Len(o.perc) |-> Quantile(k, o.perc[i])] \o <<Fold(k, TRUE)>>
      [] o.f = "spread" -> <<Stat("range", k, o)>>
      [] o.f = "ends" -> <<v[1], v[Len(v)]>>
=============================================================================
