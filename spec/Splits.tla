------------------------------- MODULE Splits -------------------------------
(* Splitting an index into ranges and every range into sets.  A request o has   *)
(*   kind   "range", "rolling", "expanding" or "given"                          *)
(*   rows   length of the index                                                 *)
(*   n      number of ranges asked for, 0 if not                                *)
(*   len    length of a range: "", a whole number or a fraction of the rows     *)
(*   min    least length of a range                                             *)
(*   start, end  first and last row of every given range                        *)
(*   sets   lengths of the sets of every range, whole numbers or fractions of   *)
(*          the range; the rest is one more set                                 *)
(*   ltr    whether the rest comes last, for every range                        *)
(* Rows are counted from 0.  A request without an answer is refused.            *)
EXTENDS Num, FiniteSets, TLC
(* a fraction of a length: rounded down, a hair from a whole number either way  *)
Frac(l) == NGt(l, "0") /\ NLt(l, "1")
Lengths(l, total) ==
    IF ~Frac(l) THEN {NInt(l)}
    ELSE LET p == NMul(l, NNum(total)) IN {NInt(NFloor(p)), NInt(NFloor(NAdd(p, "1/1000000000"))), NInt(NFloor(NSub(p, "1/1000000000")))}
LenOf(l, total) == LET s == Lengths(l, total) IN IF NInt(NFloor(NMul(l, NNum(total)))) \in s THEN NInt(NFloor(NMul(l, NNum(total)))) ELSE CHOOSE x \in s : TRUE
RECURSIVE AddUp(_)
AddUp(s) == IF s = <<>> THEN 0 ELSE Head(s) + AddUp(Tail(s))
(* all ranges a request may choose from *)
Windows(rows, l) == IF l > rows \/ l < 1 THEN <<>> ELSE [i \in 1..(rows - l + 1) |-> <<i - 1, i + l - 2>>]
Candidates(o) ==
    CASE o.kind = "given" -> [i \in 1..Len(o.start) |-> <<o.start[i], o.end[i]>>]
      [] o.kind = "expanding" -> [i \in 1..o.rows |-> <<0, i - 1>>]
      [] OTHER -> Windows(o.rows, IF o.len = "" THEN o.rows \div o.n ELSE LenOf(o.len, o.rows))
LongEnough(o) == SelectSeq(Candidates(o), LAMBDA r : r[2] - r[1] + 1 >= o.min)
(* n of m, evenly: the first, the last and the nearest to even steps between    *)
Nearest(p, q) == {x \in {p \div q, p \div q + 1} : 2 * (IF x * q > p THEN x * q - p ELSE p - x * q) <= q}
Even(j, n, m) == IF n = 1 THEN {0} ELSE Nearest((j - 1) * (m - 1), n - 1)
(* the documented rounding of an exact half: to the even neighbour              *)
Pick(j, n, m) == LET s == Even(j, n, m) IN IF Cardinality(s) = 1 THEN CHOOSE x \in s : TRUE ELSE CHOOSE x \in s : x % 2 = 0
Chosen(o) == LET r == LongEnough(o) IN IF o.n = 0 THEN r ELSE [j \in 1..o.n |-> r[Pick(j, o.n, Len(r)) + 1]]
Refused(o) == LongEnough(o) = <<>> \/ o.n > Len(LongEnough(o))
(* the sets of one range: lengths in order, the rest filling up                 *)
SetLens(lens, ltr, total) ==
    LET l == [i \in 1..Len(lens) |-> LenOf(lens[i], total)] rest == total - AddUp(l)
    IN IF ltr THEN Append(l, rest) ELSE <<rest>> \o l
Cut(r, lens, ltr) == LET l == SetLens(lens, ltr, r[2] - r[1] + 1) IN
    [i \in 1..Len(l) |-> LET from == r[1] + AddUp(SubSeq(l, 1, i - 1)) IN <<from, from + l[i] - 1>>]
Cuttable(r, lens) == LET t == r[2] - r[1] + 1 l == [i \in 1..Len(lens) |-> LenOf(lens[i], t)] IN
    lens = <<>> \/ (AddUp(l) < t /\ \A i \in 1..Len(l) : l[i] > 0)
SetsOf(o, i, r) == IF o.sets[i] = <<>> THEN <<r>> ELSE Cut(r, o.sets[i], o.ltr[i])
(* everything at once, nothing if refused *)
Splits(o) == IF Refused(o) THEN <<>>
             ELSE LET r == TLCEval(Chosen(o)) IN
                  IF \E i \in 1..Len(r) : ~Cuttable(r[i], o.sets[i]) THEN <<>> ELSE [i \in 1..Len(r) |-> SetsOf(o, i, r[i])]
=============================================================================
