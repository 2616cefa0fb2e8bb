-------------------------- MODULE FromOrdersTrace --------------------------
(* Validation of recorded simulations from order arrays, request by request.  *)
EXTENDS FromOrders, Rep, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k, s, av
vars == <<c, k, s, av>>

OrderOf(e) == [size |-> e.o[1], stype |-> e.o[2], dir |-> e.o[3], price |-> e.o[4], fees |-> e.o[5], ffees |-> e.o[6],
               slip |-> e.o[7], minsz |-> e.o[8], maxsz |-> e.o[9], gran |-> e.o[10], rp |-> e.o[11],
               lock |-> e.o[12], partial |-> e.o[13]]
OutOf(e) == [s |-> e.a[1], why |-> e.a[2], side |-> e.a[3], size |-> e.a[4], price |-> e.a[5], fees |-> e.a[6],
             cash |-> e.a[7], pos |-> e.a[8], debt |-> e.a[9], free |-> e.a[10]]
Match(x, y) == /\ x.s = y.s /\ x.why = y.why /\ x.side = y.side
               /\ Eq(x.size, y.size) /\ Eq(x.price, y.price) /\ Eq(x.fees, y.fees)
               /\ Eq(x.cash, y.cash) /\ Eq(x.pos, y.pos) /\ Eq(x.debt, y.debt) /\ Eq(x.free, y.free)
SameOrder(x, y) ==
    /\ x.stype = y.stype /\ x.dir = y.dir /\ x.lock = y.lock /\ x.partial = y.partial
    /\ \A f \in {"size", "price", "fees", "ffees", "slip", "minsz", "maxsz", "gran", "rp"} : Eq(x[f], y[f])

ApproxAll(pr, t) == IF pr.sharing /\ pr.auto
                    THEN [x \in 1..pr.n |-> IF x \in Cols(pr, t.g) THEN ApproxValue(pr, t, x) ELSE "nan"] ELSE <<>>

TraceInit == c \in 1..Len(Cases) /\ k = 0 /\ s = Start(Cases[c]) /\ av = <<>>
Event ==
    /\ k < Len(Cases[c].ev)
    /\ k' = k + 1 /\ c' = c
    /\ LET pr == Cases[c]
           e == pr.ev[k']
       IN IF Finished(pr, s)
          THEN Ok(c, "no request beyond one per bar and column", FALSE, [e |-> e]) /\ UNCHANGED <<s, av>>
          ELSE LET o1 == IF s.act THEN s ELSE OpenBar(pr, s)
                   av1 == IF s.act THEN av ELSE ApproxAll(pr, o1)
                   col == e.col + 1
                   can == NextCols(pr, o1, av1)
                   ok == col \in can /\ e.i + 1 = o1.i
                   st == Account(pr, o1, col)
                   oc == OutOf(e)
                   kept == Kept(pr, st, oc)
               IN /\ Ok(c, "requests come bar by bar, column by column in the call sequence", ok, [e |-> e, can |-> can, i |-> o1.i, av |-> av1])
                  /\ IF ~ok THEN s' = [o1 EXCEPT !.i = pr.t + 1] /\ av' = av1
                     ELSE /\ Ok(c, "a request sees the cash, position, debt and free cash the previous ones left",
                                Eq(e.b[1], st.cash) /\ Eq(e.b[2], st.pos) /\ Eq(e.b[3], st.debt) /\ Eq(e.b[4], st.free),
                                [e |-> e, st |-> st])
                          /\ Ok(c, "a request sees the right valuation price", Eq(e.b[5], st.vp), [e |-> e, st |-> st])
                          /\ Ok(c, "a request sees the right value", Eq(e.b[6], st.val), [e |-> e, st |-> st])
                          /\ Ok(c, "the request is the one asked for, with its price resolved",
                                SameOrder(OrderOf(e), OrderAt(pr, o1.i, col)), [e |-> e, want |-> OrderAt(pr, o1.i, col)])
                          /\ Ok(c, "the outcome follows from the account and the request",
                                \E x \in Outcomes(st, OrderAt(pr, o1.i, col), FALSE) : Match(x, oc), [e |-> e, st |-> st])
                          /\ Ok(c, "valuation price and value are kept up to date as asked",
                                Eq(e.n[1], kept.vp) /\ Eq(e.n[2], kept.val), [e |-> e, kept |-> kept])
                          (* go on from what was recorded *)
                          /\ s' = AfterOrder(pr, o1, col, st, oc, [vp |-> e.n[1], val |-> e.n[2]])
                          /\ av' = av1
End ==
    /\ k = Len(Cases[c].ev)
    /\ k' = k + 1 /\ c' = c /\ UNCHANGED <<s, av>>
    /\ Ok(c, "every bar and column is processed", Finished(Cases[c], s), [k |-> k])
    /\ LET pr == Cases[c]
           filled == SelectSeq(pr.ev, LAMBDA e : e.a[1] = "Filled")
       IN Ok(c, "order records are the filled requests in sequence",
             /\ Len(pr.ord) = Len(filled)
             /\ \A j \in 1..Len(filled) :
                    LET r == pr.ord[j] e == filled[j] IN
                    r.id = j - 1 /\ r.col = e.col /\ r.i = e.i /\ r.side = e.a[3] /\ Eq(r.size, e.a[4])
                    /\ Eq(r.price, e.a[5]) /\ Eq(r.fees, e.a[6]), [n |-> Len(filled), m |-> Len(pr.ord)])
TraceNext == Event \/ End
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
