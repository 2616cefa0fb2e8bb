-------------------------------- MODULE Data --------------------------------
(* Data of several symbols.  A symbol's table is [kind, cols, idx, rows]: its   *)
(* kind ("series" or "frame"), its column names and row labels in order, and    *)
(* a row of values for every label.  Names, labels and values are numbers; the  *)
(* value Missing stands for a cell without one, the name -1 for none.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Missing == -1
Img(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Within(s, S) == SelectSeq(s, LAMBDA x : x \in S)
At(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Cell(t, l, c) == IF l \in Img(t.idx) /\ c \in Img(t.cols) THEN t.rows[At(t.idx, l)][At(t.cols, c)] ELSE Missing
(* labels agreed upon by the symbols, taken one after the other; ok is FALSE when they must agree but do not *)
RECURSIVE Agree(_, _, _)
Agree(seqs, missing, acc) ==
    IF seqs = <<>> THEN [ok |-> TRUE, s |-> acc]
    ELSE LET x == Head(seqs) IN
         IF Img(x) = Img(acc) THEN Agree(Tail(seqs), missing, acc)
         ELSE IF missing = "raise" THEN [ok |-> FALSE, s |-> <<>>]
         ELSE Agree(Tail(seqs), missing, IF missing = "nan" THEN Sorted(Img(x) \cup Img(acc)) ELSE Within(acc, Img(x)))
Common(data, f(_), missing) == Agree([i \in 1..(Len(data) - 1) |-> f(data[i + 1])], missing, f(data[1]))
Reshaped(t, idx, cols, kind) == [kind |-> kind, cols |-> cols, idx |-> idx, rows |-> [i \in 1..Len(idx) |-> [j \in 1..Len(cols) |-> Cell(t, idx[i], cols[j])]]]
(* one index and one set of columns for all symbols; a single symbol is left as it is *)
Align(data, mi, mc) ==
    IF Len(data) = 1 THEN [ok |-> TRUE, data |-> data]
    ELSE LET f(t) == t.idx g(t) == t.cols
             ix == Common(data, f, mi) co == Common(data, g, mc)
             kind == IF Len(co.s) > 1 \/ \E i \in 1..Len(data) : data[i].kind = "frame" THEN "frame" ELSE "series"
         IN IF ~ix.ok \/ ~co.ok \/ (kind = "series" /\ co.s = <<>>) THEN [ok |-> FALSE, data |-> <<>>]
            ELSE [ok |-> TRUE, data |-> [i \in 1..Len(data) |-> Reshaped(data[i], ix.s, co.s, kind)]]
(* what is stored (rows being in order) of one symbol after it fetched `own`, aligned with the others to `new` *)
Merged(old, own, new) ==
    LET idx == Sorted(Img(old.idx) \cup Img(new.idx))
        fresh(l) == l \in Img(new.idx) /\ (l \in Img(own.idx) \/ l \notin Img(old.idx))
        col(j) == IF old.kind = "series" /\ new.kind = "series" THEN new.cols[1] ELSE old.cols[j]
    IN [kind |-> old.kind, cols |-> old.cols, idx |-> idx,
        rows |-> [i \in 1..Len(idx) |-> [j \in 1..Len(old.cols) |-> IF fresh(idx[i]) THEN Cell(new, idx[i], col(j)) ELSE Cell(old, idx[i], old.cols[j])]]]
Updated(data, fetched, mi, mc) ==
    LET a == Align(fetched, mi, mc)
        fits(old, new) == IF old.kind = "series" /\ new.kind = "series" THEN TRUE ELSE new.kind = "frame" /\ Img(old.cols) \subseteq Img(new.cols)
    IN IF ~a.ok THEN a
       ELSE IF \E i \in 1..Len(data) : ~fits(data[i], a.data[i]) THEN [ok |-> FALSE, data |-> <<>>]
       ELSE [ok |-> TRUE, data |-> [i \in 1..Len(data) |-> Merged(data[i], fetched[i], a.data[i])]]
(* the rows and columns at some positions, of every symbol *)
Taken(data, rows, cols, kind) ==
    [i \in 1..Len(data) |-> LET t == data[i] IN
        [kind |-> kind, cols |-> [j \in 1..Len(cols) |-> t.cols[cols[j]]], idx |-> [r \in 1..Len(rows) |-> t.idx[rows[r]]],
         rows |-> [r \in 1..Len(rows) |-> [j \in 1..Len(cols) |-> t.rows[rows[r]][cols[j]]]]]]
(* for every column, a table with the symbols side by side *)
Concat(data) == [j \in 1..Len(data[1].cols) |-> [col |-> data[1].cols[j], rows |-> [r \in 1..Len(data[1].idx) |-> [i \in 1..Len(data) |-> data[i].rows[r][j]]]]]
=============================================================================
