-------------------------------- MODULE Num --------------------------------
(* Extended rational arithmetic.  A number is a string: "n", "n/d" in lowest   *)
(* terms with d > 0, "nan", "inf" or "-inf"; NaN and the infinities follow     *)
(* IEEE 754.  TLC evaluates every operator below through the Java class Num    *)
(* (java/Num.java); the definitions given here are only signatures.            *)
EXTENDS Integers, Sequences
LOCAL Any == CHOOSE x \in {""} : TRUE
NAdd(a, b) == Any
NSub(a, b) == Any
NMul(a, b) == Any
NDiv(a, b) == Any
NNeg(a) == Any
NAbs(a) == Any
NLt(a, b) == FALSE
NLe(a, b) == FALSE
NGt(a, b) == FALSE
NGe(a, b) == FALSE
NEq(a, b) == FALSE            \* FALSE if either is NaN
NIsNaN(a) == FALSE
NIsInf(a) == FALSE
NIsFin(a) == FALSE
NMin(a, b) == Any             \* NaN if either is NaN
NMax(a, b) == Any
NSgn(a) == 0                  \* -1, 0, 1 as a TLA+ integer
NFloor(a) == Any
NInt(a) == 0                  \* the TLA+ integer part
NNum(i) == Any                \* TLA+ integer or number string to canonical number
NNear(a, b, rt, at) == FALSE  \* finite and |a-b| <= max(rt*max(|a|,|b|), at)
NClose(a, b) == FALSE         \* NNear with the library's 1e-9 / 1e-12
NSame(a, b, rt, at) == FALSE  \* NNear, or the same non-finite value
NSqrt(a) == Any               \* to about 120 bits
NPow(a, b) == Any             \* double precision
NLog(a) == Any                \* double precision
NSum(s) == Any                \* sum of a sequence
=============================================================================
