------------------------------- MODULE Grouping -----------------------------
(* A wrapper: rows and columns by their labels, a group label for each column   *)
(* (<<>> when not grouped), the number of dimensions of columns and of groups.  *)
EXTENDS Integers, Sequences, FiniteSets
PickSeq(s, p) == [i \in 1..Len(p) |-> s[p[i] + 1]]
RangeOf(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>> \o SelectSeq(Distinct(Tail(s)), LAMBDA x : x # Head(s))
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
(* groups are numbered in the order in which they appear *)
Codes(g) == LET d == Distinct(g) IN [i \in 1..Len(g) |-> IndexIn(d, g[i]) - 1]
Coherent(g) == LET k == Codes(g) IN \A i \in 1..(Len(g) - 1) : k[i] <= k[i + 1]
Members(g, x) == SelectSeq([i \in 1..Len(g) |-> i - 1], LAMBDA p : g[p + 1] = x)
Lens(g) == LET d == Distinct(g) IN [i \in 1..Len(d) |-> Len(Members(g, d[i]))]
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Starts(g) == LET l == Lens(g) IN [i \in 1..Len(l) |-> SumTo(l, i - 1)]
Ends(g) == LET l == Lens(g) IN [i \in 1..Len(l) |-> SumTo(l, i)]
Grouped(w) == w.grp # <<>>
GroupNames(w) == IF Grouped(w) THEN Distinct(w.grp) ELSE w.cols
GNdim(w) == IF ~Grouped(w) THEN w.ndim ELSE IF w.gnd > 0 THEN w.gnd ELSE IF Len(Distinct(w.grp)) > 1 THEN 2 ELSE 1
(* operations; a scalar selection drops the dimension.  A single group is      *)
(* indexed as a series, which makes its only column one too                     *)
Rows(w, p) == [w EXCEPT !.rows = PickSeq(w.rows, p), !.ndim = IF Grouped(w) /\ GNdim(w) = 1 /\ Len(w.cols) = 1 THEN 1 ELSE @]
Cols(w, p, scalar) == [w EXCEPT !.cols = PickSeq(w.cols, p), !.grp = IF Grouped(w) THEN PickSeq(w.grp, p) ELSE <<>>, !.ndim = IF scalar THEN 1 ELSE 2, !.gnd = 0]
RECURSIVE Joined(_)
Joined(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Joined(Tail(ss))
GroupCols(w, p) == Joined([i \in 1..Len(p) |-> Members(w.grp, Distinct(w.grp)[p[i] + 1])])
Groups(w, p, scalar) ==
    LET q == GroupCols(w, p) IN
    [w EXCEPT !.cols = PickSeq(w.cols, q), !.grp = PickSeq(w.grp, q), !.ndim = IF scalar /\ Len(q) = 1 THEN 1 ELSE 2, !.gnd = IF scalar THEN 1 ELSE 2]
(* a regrouping that keeps the number of groups keeps their dimensions *)
Regroup(w, g) == [w EXCEPT !.grp = g, !.gnd = IF g # <<>> /\ Grouped(w) /\ Len(Distinct(g)) = Len(Distinct(w.grp)) THEN GNdim(w) ELSE 0]
(* what changes when g replaces h (<<>>: no groups), and whether that is allowed *)
Change(h, g) == IF h = <<>> /\ g = <<>> THEN "none" ELSE IF h = <<>> THEN "enable" ELSE IF g = <<>> THEN "disable" ELSE IF Codes(h) # Codes(g) THEN "modify" ELSE "none"
Refused(h, g, allow) == Change(h, g) \in {"enable", "disable", "modify"} /\ ~allow[Change(h, g)]
(* the frame of groups *)
Resolved(w) == IF Grouped(w) THEN [rows |-> w.rows, cols |-> Distinct(w.grp), grp |-> <<>>, ndim |-> GNdim(w), gnd |-> 0] ELSE w
Shape(w) == IF w.ndim = 1 THEN <<Len(w.rows)>> ELSE <<Len(w.rows), Len(w.cols)>>
View(w) ==
    LET ok == ~Grouped(w) \/ Coherent(w.grp) r == IF ok THEN Resolved(w) ELSE w IN
    [rows |-> w.rows, cols |-> w.cols, ndim |-> w.ndim, shape |-> Shape(w), grp |-> w.grp, sorted |-> ok,
     codes |-> IF Grouped(w) THEN Codes(w.grp) ELSE [i \in 1..Len(w.cols) |-> i - 1], names |-> GroupNames(w),
     lens |-> IF ~ok THEN <<>> ELSE IF Grouped(w) THEN Lens(w.grp) ELSE [i \in 1..Len(w.cols) |-> 1],
     starts |-> IF ~ok THEN <<>> ELSE IF Grouped(w) THEN Starts(w.grp) ELSE [i \in 1..Len(w.cols) |-> i - 1],
     ends |-> IF ~ok THEN <<>> ELSE IF Grouped(w) THEN Ends(w.grp) ELSE [i \in 1..Len(w.cols) |-> i],
     gndim |-> IF ok THEN GNdim(w) ELSE 0, gshape |-> IF ok THEN Shape(r) ELSE <<>>,
     wrap |-> <<w.rows, w.cols, w.ndim>>, gwrap |-> IF ok THEN <<r.rows, r.cols, r.ndim>> ELSE <<>>,
     red |-> IF w.ndim = 1 THEN <<>> ELSE w.cols, gred |-> IF ~ok \/ r.ndim = 1 THEN <<>> ELSE r.cols, data |-> TRUE]
=============================================================================
