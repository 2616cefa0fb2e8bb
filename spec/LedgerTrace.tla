---------------------------- MODULE LedgerTrace ----------------------------
(* Recorded simulations: the history of requests is walked, and the records    *)
(* must be exactly those the ledger holds.                                     *)
EXTENDS Ledger, Rep, Json, IOUtils, FiniteSets
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k, l, unit, colm, bars
vars == <<c, k, l, unit, colm, bars>>
Eq(a, b) == NSame(a, b, "1/1000000000000", "1/1000000000000")
EqT(a, b) == NSame(a, b, "1/1000000000", "1/1000000000")
SeqEq(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Eq(a[j], b[j])
NumOf == {1, 4, 5, 6, 7, 8, 9, 10, 11}
Priced(pf, h) == LET p == h.o[4] IN
    IF p = "inf" THEN pf.close[h.i][h.col] ELSE IF p = "-inf" THEN (IF h.i > 1 THEN pf.close[h.i - 1][h.col] ELSE "nan") ELSE p
SameReq(pf, h, o) == /\ \A j \in NumOf \ {4} : Eq(h.o[j], o[j])
                     /\ Eq(Priced(pf, h), o[4])
                     /\ \A j \in {2, 3, 12, 13} : h.o[j] = o[j]
TraceInit == /\ c \in 1..Len(Cases) /\ k = 0 /\ l = Empty
             /\ unit = TLCEval([g \in 1..Len(Cases[c].init) |-> <<Cases[c].init[g], Cases[c].init[g]>>])
             /\ colm = TLCEval([x \in 1..Cases[c].n |-> <<"0", "0">>])
             /\ bars = TLCEval([x \in 1..Cases[c].n |-> 0])
Request ==
    /\ k < Len(Cases[c].hist) /\ k' = k + 1 /\ c' = c
    /\ LET pf == Cases[c]
           h == pf.hist[k']
           filled == h.r[1] = "Filled"
           u == pf.unit[h.col]
           l1 == TLCEval(Write(l, [i |-> h.i, col |-> h.col, filled |-> filled, log |-> h.log], pf.ocap, pf.lcap))
       IN /\ l' = l1
          /\ Ok(c, "no column is asked about an earlier bar", h.i >= bars[h.col], [h |-> h])
          /\ bars' = [bars EXCEPT ![h.col] = h.i]
          (* the account before is the account after the previous request *)
          /\ Ok(c, "the account before a request is the one its predecessors left",
                EqT(h.b[1], unit[u][1]) /\ EqT(h.b[4], unit[u][2]) /\ EqT(h.b[2], colm[h.col][1]) /\ EqT(h.b[3], colm[h.col][2]), [h |-> h, unit |-> unit, colm |-> colm])
          /\ Ok(c, "a request that is not filled leaves the account as it was",
                filled \/ (EqT(h.a[1], h.b[1]) /\ EqT(h.a[2], h.b[2]) /\ EqT(h.a[3], h.b[3]) /\ EqT(h.a[4], h.b[4])), [h |-> h])
          /\ unit' = [unit EXCEPT ![u] = <<h.a[1], h.a[4]>>]
          /\ colm' = [colm EXCEPT ![h.col] = <<h.a[2], h.a[3]>>]
          (* the order record *)
          /\ (filled /\ ~l1.full /\ ~pf.refused => LET id == Len(l1.ords) IN
                Ok(c, "a filled request has its order record in turn",
                   id <= Len(pf.ords) /\ LET r == pf.ords[id] IN
                     /\ r.id = id - 1 /\ r.col + 1 = h.col /\ r.i + 1 = h.i /\ r.side = h.r[3]
                     /\ Eq(r.size, h.r[4]) /\ Eq(r.price, h.r[5]) /\ Eq(r.fees, h.r[6]), [h |-> h, id |-> id, n |-> Len(pf.ords)]))
          (* the log record *)
          /\ (h.log /\ ~l1.full /\ ~pf.refused => LET id == Len(l1.logs) IN
                IF id > Len(pf.logs) THEN Ok(c, "a logged request has its log record in turn", FALSE, [h |-> h, id |-> id])
                ELSE LET r == pf.logs[id] w == l1.logs[id] IN
                     /\ Ok(c, "a logged request has its log record in turn", r.id = w.id /\ r.col + 1 = h.col /\ r.i + 1 = h.i /\ r.grp + 1 = pf.group[h.col], [h |-> h, r |-> r])
                     /\ Ok(c, "a log record points to the order it produced", r.oid = w.oid, [h |-> h, r |-> r])
                     /\ Ok(c, "a log record holds the request", SameReq(pf, h, r.o), [h |-> h, r |-> r])
                     /\ Ok(c, "a log record holds the account before", SeqEq(r.b, h.b), [h |-> h, r |-> r])
                     /\ Ok(c, "a log record holds the result", r.a[1] = h.r[1] /\ r.a[2] = h.r[2] /\ r.a[3] = h.r[3] /\ \A j \in 4..6 : Eq(r.a[j], h.r[j]), [h |-> h, r |-> r])
                     /\ Ok(c, "a log record holds the account after",
                           SeqEq(SubSeq(r.a, 7, 10), SubSeq(h.a, 1, 4)) /\ Eq(r.n[1], h.a[5]) /\ Eq(r.n[2], h.a[6]), [h |-> h, r |-> r]))
Done ==
    /\ k = Len(Cases[c].hist) /\ k' = k + 1
    /\ LET pf == Cases[c] IN
       /\ Ok(c, "too small a buffer is refused and nothing else is", l.full = pf.refused, [full |-> l.full, refused |-> pf.refused])
       /\ (~l.full /\ ~pf.refused =>
            /\ Ok(c, "no further order records", Len(pf.ords) = Len(l.ords), [n |-> Len(pf.ords), want |-> Len(l.ords)])
            /\ Ok(c, "no further log records", Len(pf.logs) = Len(l.logs), [n |-> Len(pf.logs), want |-> Len(l.logs)])
            /\ Ok(c, "sorted by column and bar, orders keep their sequence",
                  LET s == pf.sorted IN
                  /\ Len(s) = Len(l.ords) /\ {s[j][1] : j \in 1..Len(s)} = 0..(Len(s) - 1)
                  /\ \A j \in 1..(Len(s) - 1) : s[j][2] < s[j + 1][2] \/ (s[j][2] = s[j + 1][2] /\ s[j][3] <= s[j + 1][3] /\ s[j][1] < s[j + 1][1]), [s |-> pf.sorted])
            /\ Ok(c, "every request asked for is in the history once", pf.all => Len(pf.hist) = pf.n * pf.t /\ \A x \in 1..pf.n :
                     {h.i : h \in {pf.hist[j] : j \in {q \in 1..Len(pf.hist) : pf.hist[q].col = x}}} = 1..pf.t, <<>>)
            /\ Ok(c, "orders and logs are counted by side and outcome",
                  /\ pf.counts.buy = Cardinality({j \in 1..Len(pf.ords) : pf.ords[j].side = "Buy"})
                  /\ pf.counts.sell = Cardinality({j \in 1..Len(pf.ords) : pf.ords[j].side = "Sell"})
                  /\ pf.counts.filled = Cardinality({j \in 1..Len(pf.logs) : pf.logs[j].a[1] = "Filled"})
                  /\ pf.counts.ignored = Cardinality({j \in 1..Len(pf.logs) : pf.logs[j].a[1] = "Ignored"})
                  /\ pf.counts.rejected = Cardinality({j \in 1..Len(pf.logs) : pf.logs[j].a[1] = "Rejected"}), [counts |-> pf.counts]))
    /\ Emit(c) /\ UNCHANGED <<c, l, unit, colm, bars>>
TraceNext == Request \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
