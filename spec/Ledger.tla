------------------------------- MODULE Ledger -------------------------------
(* The order and log records of a simulation.  The history is the sequence of *)
(* requests in execution order; the ledger after any prefix is               *)
(*   ords   one order record per filled request, numbered from 0             *)
(*   logs   one log record per request that asked for one, numbered from 0,  *)
(*          pointing at the order record it produced (or -1)                  *)
(*   full   a record found no room: the simulation has stopped               *)
EXTENDS Num, TLC
Empty == [ords |-> <<>>, logs |-> <<>>, full |-> FALSE]
(* h: [i, col, filled, log]; caps: room for orders and logs *)
Write(l, h, ocap, lcap) ==
    IF l.full THEN l
    ELSE LET o == IF h.filled THEN Append(l.ords, [id |-> Len(l.ords), i |-> h.i, col |-> h.col]) ELSE l.ords
             g == IF h.log THEN Append(l.logs, [id |-> Len(l.logs), i |-> h.i, col |-> h.col,
                                                oid |-> IF h.filled THEN Len(l.ords) ELSE 0 - 1]) ELSE l.logs
         IN IF Len(o) > ocap \/ Len(g) > lcap THEN [l EXCEPT !.full = TRUE]
            ELSE [l EXCEPT !.ords = o, !.logs = g]
(* every order has at most one log record, and it knows it *)
Linked(l) == \A k \in 1..Len(l.logs) : LET r == l.logs[k] IN
                r.oid # 0 - 1 => r.oid + 1 <= Len(l.ords) /\ l.ords[r.oid + 1].col = r.col /\ l.ords[r.oid + 1].i = r.i
Numbered(l) == /\ \A k \in 1..Len(l.ords) : l.ords[k].id = k - 1
               /\ \A k \in 1..Len(l.logs) : l.logs[k].id = k - 1
OneLogPerOrder(l) == \A a, b \in 1..Len(l.logs) : a # b /\ l.logs[a].oid # 0 - 1 => l.logs[a].oid # l.logs[b].oid
=============================================================================
