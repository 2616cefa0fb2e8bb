----------------------------- MODULE Indicators -----------------------------
(* The built-in indicators over bars d = [high, low, close, vol].  Deviations   *)
(* are given by their squares, bands by their middle and half width squared.    *)
EXTENDS Rolling
Ma(x, w, ewm, adjust) == IF ewm THEN Ewm([span |-> w, m |-> w, adjust |-> adjust, f |-> "mean"], x) ELSE Roll([w |-> w, m |-> w, f |-> "mean"], x)
MVar(x, w, ewm, adjust, ddof) == IF ewm THEN Ewm([span |-> w, m |-> w, adjust |-> adjust, f |-> "var"], x) ELSE Roll([w |-> w, m |-> w, f |-> "var", ddof |-> ddof], x)
Each(x, F(_)) == [i \in 1..Len(x) |-> F(i)]
Delta(x) == Each(x, LAMBDA i : NSub(x[i], At(x, i - 1, "nan")))
Clip(v) == IF NIsNaN(v) THEN v ELSE IF NLt(v, "0") THEN "0" ELSE v
TrueRange(d) == Each(d.high, LAMBDA i : IF i = 1 THEN NSub(d.high[1], d.low[1]) ELSE
    NMax(NSub(d.high[i], d.low[i]), NMax(NAbs(NSub(d.high[i], d.close[i - 1])), NAbs(NSub(d.low[i], d.close[i - 1])))))
Ind(o, d) ==
    CASE o.op = "ma" -> <<Ma(d.close, o.w, o.ewm, o.adjust)>>
      [] o.op = "mstd" -> <<MVar(d.close, o.w, o.ewm, o.adjust, o.ddof)>>
      [] o.op = "bands" -> LET m == Ma(d.close, o.w, o.ewm, o.adjust) v == MVar(d.close, o.w, o.ewm, o.adjust, o.ddof) IN
            <<m, Each(m, LAMBDA i : IF NIsNaN(v[i]) THEN "nan" ELSE m[i]), Each(m, LAMBDA i : NMul(v[i], Sq(o.alpha)))>>
      [] o.op = "rsi" -> LET u == Ma(Each(d.close, LAMBDA i : Clip(Delta(d.close)[i])), o.w, o.ewm, o.adjust)
                             w == Ma(Each(d.close, LAMBDA i : Clip(NNeg(Delta(d.close)[i]))), o.w, o.ewm, o.adjust) IN
            <<Each(u, LAMBDA i : NSub("100", NDiv("100", NAdd("1", NDiv(u[i], w[i])))))>>
      [] o.op = "stoch" -> LET lo == Roll([w |-> o.k, m |-> o.k, f |-> "min"], d.low) hi == Roll([w |-> o.k, m |-> o.k, f |-> "max"], d.high)
                               k == TLCEval(Each(lo, LAMBDA i : NDiv(NMul("100", NSub(d.close[i], lo[i])), NSub(hi[i], lo[i])))) IN
            <<k, Ma(k, o.w, o.ewm, o.adjust)>>
      [] o.op = "macd" -> LET f == Ma(d.close, o.w, o.ewm, o.adjust) s == Ma(d.close, o.slow, o.ewm, o.adjust) m == TLCEval(Each(f, LAMBDA i : NSub(f[i], s[i]))) IN
            <<m, Ma(m, o.sig, o.sewm, o.adjust)>>
      [] o.op = "atr" -> LET t == TLCEval(TrueRange(d)) IN <<t, Ma(t, o.w, o.ewm, o.adjust)>>
      [] o.op = "obv" -> <<Each(d.close, LAMBDA i : NSum(Known([j \in 1..i |-> IF NLt(d.close[j], At(d.close, j - 1, "nan")) THEN NNeg(d.vol[j]) ELSE d.vol[j]])))>>
=============================================================================
