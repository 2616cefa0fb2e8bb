------------------------------ MODULE SignalSeq -----------------------------
(* Sequences of signals: cleaning of entries and exits, ranks, ranges and       *)
(* positions.  Arrays are sequences of booleans, bars are counted from 0.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Bar(a, i) == a[i + 1]
Bars(a) == 0..(Len(a) - 1)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Where(a) == SelectSeq([i \in 1..Len(a) |-> i - 1], LAMBDA i : Bar(a, i))
(* one bar of cleaning: phase -1 before any signal, 1 inside, 0 outside *)
CleanStep(phase, en, ex, entryFirst) ==
    IF en /\ ex THEN [en |-> FALSE, ex |-> FALSE, phase |-> phase]
    ELSE IF en /\ phase # 1 THEN [en |-> TRUE, ex |-> FALSE, phase |-> 1]
    ELSE IF ex /\ (phase = 1 \/ (phase = -1 /\ ~entryFirst)) THEN [en |-> FALSE, ex |-> TRUE, phase |-> 0]
    ELSE [en |-> FALSE, ex |-> FALSE, phase |-> phase]
RECURSIVE CleanFrom(_, _, _, _)
CleanFrom(en, ex, entryFirst, phase) ==
    IF en = <<>> THEN <<>>
    ELSE LET r == CleanStep(phase, Head(en), Head(ex), entryFirst) IN <<r>> \o CleanFrom(Tail(en), Tail(ex), entryFirst, r.phase)
Clean(en, ex, entryFirst) == LET r == CleanFrom(en, ex, entryFirst, -1) IN
    [en |-> [i \in 1..Len(en) |-> r[i].en], ex |-> [i \in 1..Len(en) |-> r[i].ex]]
(* ranks: a counter of signals or of partitions, started anew by the first signal at or after a reset *)
RECURSIVE RankFrom(_, _, _, _, _)
RankFrom(a, reset, mode, i, s) ==
    IF i > Len(a) THEN <<>>
    ELSE LET due == s.due \/ reset[i]
             starts == a[i] /\ ~s.in
             k == CASE due -> 0
                    [] mode = "signal" /\ starts -> 0
                    [] mode = "signal-gaps" -> s.k + 1
                    [] mode = "signal" -> s.k + 1
                    [] mode = "partition" -> IF starts THEN s.k + 1 ELSE s.k
         IN IF a[i] THEN <<k>> \o RankFrom(a, reset, mode, i + 1, [due |-> FALSE, in |-> TRUE, k |-> k])
            ELSE <<-1>> \o RankFrom(a, reset, mode, i + 1, [s EXCEPT !.due = due, !.in = FALSE])
(* with afterFalse the signals before the first bar without one are not ranked *)
Masked(a, afterFalse) == [i \in 1..Len(a) |-> a[i] /\ (afterFalse => \E j \in 1..(i - 1) : ~a[j])]
Rank(a, reset, mode, afterFalse) == RankFrom(Masked(a, afterFalse), reset, mode, 1, [due |-> TRUE, in |-> FALSE, k |-> -1])
NoReset(a) == [i \in 1..Len(a) |-> FALSE]
(* ranges: <<first bar, last bar, open>> *)
Between(a) == LET w == Where(a) IN [i \in 1..(IF w = <<>> THEN 0 ELSE Len(w) - 1) |-> <<w[i], w[i + 1], 0>>]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Largest(S) == CHOOSE x \in S : \A y \in S : x >= y
NextIn(b, i) == LET S == {j \in Bars(b) : Bar(b, j) /\ j >= i} IN IF S = {} THEN -1 ELSE Least(S)
LastIn(a, i) == LET S == {j \in Bars(a) : Bar(a, j) /\ j <= i} IN IF S = {} THEN -1 ELSE Largest(S)
BetweenTwo(a, b, fromOther) ==
    IF fromOther THEN LET w == SelectSeq(Where(b), LAMBDA j : LastIn(a, j) >= 0) IN [i \in 1..Len(w) |-> <<LastIn(a, w[i]), w[i], 0>>]
    ELSE LET w == SelectSeq(Where(a), LAMBDA j : NextIn(b, j) >= 0) IN [i \in 1..Len(w) |-> <<w[i], NextIn(b, w[i]), 0>>]
Starts(a) == SelectSeq(Where(a), LAMBDA i : i = 0 \/ ~Bar(a, i - 1))
EndOf(a, i) == LET S == {j \in Bars(a) : j > i /\ ~Bar(a, j)} IN IF S = {} THEN Len(a) ELSE Least(S)
Partitions(a) == LET w == Starts(a) IN [i \in 1..Len(w) |-> IF EndOf(a, w[i]) = Len(a) THEN <<w[i], Len(a) - 1, 1>> ELSE <<w[i], EndOf(a, w[i]), 0>>]
BetweenPartitions(a) == LET w == Starts(a) IN [i \in 1..(IF w = <<>> THEN 0 ELSE Len(w) - 1) |-> <<EndOf(a, w[i]) - 1, w[i + 1], 0>>]
NthIndex(a, n) == LET w == Where(a) IN IF n >= 0 THEN (IF n < Len(w) THEN w[n + 1] ELSE -1) ELSE (IF -n <= Len(w) THEN w[Len(w) + n + 1] ELSE -1)
(* the mean position scaled to -1 .. 1, as a fraction; <<0, 0>> without signals or with one bar *)
NormAvg(a) == LET w == Where(a) IN IF Len(a) <= 1 \/ w = <<>> THEN <<0, 0>> ELSE <<2 * Sum(w) - Len(w) * (Len(a) - 1), Len(w) * (Len(a) - 1)>>
=============================================================================
