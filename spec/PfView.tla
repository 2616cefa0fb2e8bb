------------------------------- MODULE PfView -------------------------------
(* A portfolio after selections and regroupings of a simulated one.            *)
(*                                                                             *)
(* The state is a wrapper of Grouping.tla whose column labels are the columns   *)
(* of the simulated portfolio (from 0).  Everything else is derived: prices,    *)
(* orders, call sequence and records go with their columns, the initial cash    *)
(* with its column, or with its group when cash is shared.                      *)
EXTENDS Reconstruct
G == INSTANCE Grouping
Start0(b) == [rows |-> <<>>, cols |-> [x \in 1..b.n |-> x - 1], grp |-> b.grp, ndim |-> b.ndim, gnd |-> 0]
(* with shared cash the groups stay together *)
May(w, o, sharing) ==
    CASE o.op = "groups" -> G!Grouped(w) /\ G!GNdim(w) = 2
      [] o.op = "cols" -> w.ndim = 2 /\ (sharing => ~G!Grouped(w))
      [] o.op = "regroup" -> sharing => G!Change(w.grp, o.g) = "none"
      [] o.op = "ask" -> sharing => G!Change(w.grp, o.g) \in {"none", "disable"}
      [] o.op = "rows" -> FALSE
After(w, o) ==
    CASE o.op = "groups" -> G!Groups(w, o.p, o.scalar)
      [] o.op = "cols" -> G!Cols(w, o.p, o.scalar)
      [] o.op = "regroup" -> G!Regroup(w, o.g)
      [] OTHER -> w
RECURSIVE Run(_, _, _)
Run(w, os, sharing) ==
    IF os = <<>> THEN w
    ELSE Run(TLCEval(IF May(w, Head(os), sharing) THEN After(w, Head(os)) ELSE w), Tail(os), sharing)
RECURSIVE Verdicts(_, _, _)
Verdicts(w, os, sharing) ==
    IF os = <<>> THEN <<>>
    ELSE LET ok == May(w, Head(os), sharing)
         IN <<ok>> \o Verdicts(TLCEval(IF ok THEN After(w, Head(os)) ELSE w), Tail(os), sharing)

(* the units of a grouping of the columns at hand: own groups, each column, or g *)
Single(n) == [x \in 1..n |-> x]
UnitsOf(w, kind, g) ==
    LET h == IF kind = "own" THEN w.grp ELSE IF kind = "none" THEN <<>> ELSE g
    IN IF h = <<>> THEN [from |-> TLCEval(Single(Len(w.cols))), to |-> TLCEval(Single(Len(w.cols)))]
       ELSE LET s == TLCEval(G!Starts(h)) IN [from |-> TLCEval([u \in 1..Len(s) |-> s[u] + 1]), to |-> TLCEval(G!Ends(h))]
BaseGroup(b, x) == G!IndexIn(G!Distinct(b.grp), b.grp[x + 1])
Own(w, b) == UnitsOf(w, IF b.sharing THEN "own" ELSE "none", <<>>)
(* the portfolio at hand *)
Portfolio(b, w) ==
    LET n == Len(w.cols)
        at(x) == w.cols[x] + 1
        own == Own(w, b)
    IN [n |-> n, t |-> b.t, sharing |-> b.sharing, auto |-> b.auto, align |-> b.align, fillna |-> b.fillna,
        tol |-> b.tol, small |-> b.small,
        from |-> TLCEval(own.from), to |-> TLCEval(own.to),
        init |-> TLCEval(IF b.auto THEN <<>> ELSE [u \in 1..Len(own.from) |-> IF b.sharing THEN b.init[BaseGroup(b, w.cols[own.from[u]])] ELSE b.init[at(u)]]),
        close |-> TLCEval([i \in 1..b.t |-> TLCEval([x \in 1..n |-> b.close[i][at(x)]])]),
        ord |-> TLCEval([x \in 1..n |-> b.ord[at(x)]]),
        seq |-> TLCEval(IF b.seq = <<>> THEN <<>> ELSE [i \in 1..b.t |-> TLCEval([x \in 1..n |-> b.seq[i][at(x)]])])]
(* an observed portfolio, with the units and inputs the specification expects *)
Derived(r) ==
    LET w == TLCEval(Run(Start0(r.base), r.ops, r.base.sharing))
    IN TLCEval(Portfolio(r.base, w) @@
        [w |-> w, views |-> TLCEval([k \in 1..Len(r.views) |-> TLCEval(UnitsOf(w, r.views[k].kind, r.views[k].g) @@ r.views[k])])] @@ r)
=============================================================================
