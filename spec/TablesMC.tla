------------------------------ MODULE TablesMC ------------------------------
(* Asking for the table of an object: options are chosen one by one, then the  *)
(* rows are laid out one by one.                                               *)
EXTENDS Tables, Rep
CONSTANTS Wide
VARIABLES o, left, rows, phase
vars == <<o, left, rows, phase>>
Sels == {"", "trades", "duration", "closed and not winning", "wrapper or index", "not wrapper"}
Is(k) == k = o.kind
Init == /\ \E kind \in Kinds, open \in BOOLEAN, other \in BOOLEAN, freq \in BOOLEAN, by \in {"own", "no", "by", "plain"}, sel \in Sels, type \in {"none", "entry", "exit", "pos"}, asset \in BOOLEAN, out \in {"frame", "column", "agg"} :
             /\ kind # "portfolio" => type = "none" /\ ~asset
             /\ kind \in {"portfolio", "entry_trades", "exit_trades", "positions", "orders", "logs", "data", "records", "ranges", "drawdowns", "mapped", "series"} => ~other
             /\ kind \in {"orders", "logs", "data", "records", "ranges", "returns"} => ~open
             /\ kind = "signals" => other \/ ~open
             /\ kind \in {"entry_trades", "exit_trades", "positions", "orders", "logs", "ranges", "drawdowns", "mapped", "records"} => by \in {"own", "plain"}
             /\ kind = "data" => by = "plain"
             (* not every pairing of options is told apart when narrow *)
             /\ Wide \/ (sel # "" => out = "frame" /\ freq /\ ~asset) 
             /\ Wide \/ (type # "none" => freq /\ ~asset)
             /\ o = [kind |-> kind, open |-> open, other |-> other, freq |-> freq, by |-> by, sel |-> sel, type |-> type, asset |-> asset, out |-> out]
        /\ left = <<>> /\ rows = <<>> /\ phase = "start"
Ask == phase = "start" /\ phase' = "lay" /\ left' = TLCEval(Rows(o)) /\ UNCHANGED <<o, rows>>
Lay == /\ phase = "lay" /\ left # <<>> /\ left' = Tail(left)
       /\ LET all == TLCEval(Rows(o)) i == Len(all) - Len(left) + 1 r == left[1] IN
          rows' = IF Stays(o, i) /\ Fits(o.sel, r.tags) THEN Append(rows, r) ELSE rows
       /\ UNCHANGED <<o, phase>>
End == phase = "lay" /\ left = <<>> /\ phase' = "end" /\ Emit([o |-> o, rows |-> [i \in DOMAIN rows |-> [t |-> rows[i].t, f |-> rows[i].f, ag |-> rows[i].ag]]]) /\ UNCHANGED <<o, left, rows>>
Next == Ask \/ Lay \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* a table is what the description says, titles are unique, tags only leave rows out *)
IsTable == phase = "end" => rows = Table(o)
Unique == \A i, j \in DOMAIN rows : rows[i].t = rows[j].t => i = j
IsPart == phase = "end" => LET whole == TLCEval(Table([o EXCEPT !.sel = ""])) IN rows = SelectSeq(whole, LAMBDA r : Fits(o.sel, r.tags))
Settles == <>(phase = "end")
=============================================================================
