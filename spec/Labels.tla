-------------------------------- MODULE Labels ------------------------------
(* Labels of bars by what comes after them.                                     *)
EXTENDS Rolling
Each(x, F(_)) == [i \in 1..Len(x) |-> F(i)]
(* a statistic of the w bars that start wait bars ahead; with weights, of all   *)
(* bars from there to the end                                                   *)
Future(o, x) ==
    LET y == Rev(x) r == TLCEval(Rev(IF o.ewm THEN Ewm([span |-> o.w, m |-> o.w, adjust |-> o.adjust, f |-> o.f], y) ELSE Roll([w |-> o.w, m |-> o.w, f |-> o.f, ddof |-> o.ddof], y)))
    IN  Each(x, LAMBDA i : At(r, i + o.wait, "nan"))
Rel(a, b) == NDiv(NSub(a, b), b)
(* The search for extrema: dir is 1 while it follows a low, -1 while it follows *)
(* a high, 0 before the first; at is the bar of the extremum followed.          *)
Rise(x, pos, at, i) == NGe(x[i], NMul(x[at], NAdd("1", pos[at])))
Drop(x, neg, at, i) == NLe(x[i], NMul(x[at], NSub("1", neg[at])))
LInit(x) == [at |-> 1, dir |-> 0, out |-> Each(x, LAMBDA i : 0)]
LStep(s, x, pos, neg, i) ==
    LET low == [at |-> i, dir |-> -1, out |-> [s.out EXCEPT ![s.at] = -1]] high == [at |-> i, dir |-> 1, out |-> [s.out EXCEPT ![s.at] = 1]] IN
    CASE s.dir = 1 -> IF NLt(x[i], x[s.at]) THEN [s EXCEPT !.at = i] ELSE IF Rise(x, pos, s.at, i) THEN low ELSE s
      [] s.dir = -1 -> IF NGt(x[i], x[s.at]) THEN [s EXCEPT !.at = i] ELSE IF Drop(x, neg, s.at, i) THEN high ELSE s
      [] OTHER -> IF Rise(x, pos, s.at, i) THEN low ELSE IF Drop(x, neg, s.at, i) THEN high ELSE s
LEnd(s) == IF s.dir = 0 \/ s.out = <<>> THEN s.out ELSE [s.out EXCEPT ![s.at] = 0 - s.dir]
RECURSIVE LRun(_, _, _, _, _)
LRun(s, x, pos, neg, i) == IF i > Len(x) THEN LEnd(s) ELSE LRun(TLCEval(LStep(s, x, pos, neg, i)), x, pos, neg, i + 1)
Extrema(x, pos, neg) == LRun(LInit(x), x, pos, neg, 2)
(* ------------------------------------------------- trends between extrema *)
Next2(e, i) == CHOOSE j \in (i + 1)..Len(e) : e[j] # 0 /\ \A q \in (i + 1)..(j - 1) : e[q] = 0
Prev2(e, i) == CHOOSE j \in 1..i : e[j] # 0 /\ \A q \in (j + 1)..i : e[q] = 0
Within(e, i) == (\E j \in 1..i : e[j] # 0) /\ \E j \in (i + 1)..Len(e) : e[j] # 0
Trend(mode, x, e, pos, neg) == Each(x, LAMBDA i :
    IF ~Within(e, i) THEN "nan"
    ELSE LET a == Prev2(e, i) b == Next2(e, i) up == NGt(x[b], x[a]) s == SubSeq(x, a, b) lo == Fold(s, FALSE) hi == Fold(s, TRUE) IN
         CASE mode = "binary" -> IF up THEN "1" ELSE "0"
           [] mode = "cont" -> NSub("1", NDiv(NSub(x[i], lo), NSub(hi, lo)))
           [] mode = "sat" -> IF up
                THEN LET full == NDiv(hi, NAdd("1", pos[a])) IN IF NGe(hi, NMul(lo, NAdd("1", pos[a]))) /\ NLe(x[i], full) THEN "1" ELSE NSub("1", NDiv(NSub(x[i], full), NSub(hi, full)))
                ELSE LET full == NDiv(lo, NSub("1", neg[a])) IN IF NLe(lo, NMul(hi, NSub("1", neg[a]))) /\ NGe(x[i], full) THEN "0" ELSE NSub("1", NDiv(NSub(x[i], lo), NSub(full, lo)))
           [] mode = "pct" -> Rel(x[b], x[i])
           [] mode = "norm" -> IF up THEN NDiv(NSub(x[b], x[i]), x[b]) ELSE Rel(x[b], x[i]))
(* the first of the next w bars beyond a threshold; zero is no threshold        *)
Hit(x, pos, neg, i, j) == IF NGt(pos[i], "0") /\ Rise(x, pos, i, j) THEN "1" ELSE IF NGt(neg[i], "0") /\ Drop(x, neg, i, j) THEN "-1" ELSE "0"
Breakout(o, x, pos, neg) == Each(x, LAMBDA i :
    LET js == {j \in (i + o.wait)..(i + o.wait + o.w - 1) : j <= Len(x) /\ Hit(x, pos, neg, i, j) # "0"} IN
    IF js = {} THEN "0" ELSE Hit(x, pos, neg, i, CHOOSE j \in js : \A q \in js : j <= q))
Label(o, x, pos, neg) ==
    CASE o.op = "future" -> Future(o, x)
      [] o.op = "fixed" -> Each(x, LAMBDA i : Rel(At(x, i + o.n, "nan"), x[i]))
      [] o.op = "meanlb" -> LET m == TLCEval(Future(o, x)) IN Each(x, LAMBDA i : Rel(m[i], x[i]))
      [] o.op = "extrema" -> LET e == Extrema(x, pos, neg) IN Each(x, LAMBDA i : NNum(e[i]))
      [] o.op = "trend" -> LET e == TLCEval(Extrema(x, pos, neg)) IN Trend(o.mode, x, e, pos, neg)
      [] o.op = "breakout" -> Breakout(o, x, pos, neg)
=============================================================================
