------------------------- MODULE FromSignalsTrace -------------------------
(* Validation of recorded simulations from signals, one group and bar at a    *)
(* time: pr.bars[g][i] are the logged requests in the order of execution,     *)
(* pr.calls[g][i] the recorded calls of adjustment and signal functions.      *)
EXTENDS FromSignals, Rep, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, s, fin
vars == <<c, s, fin>>

OrderOf(e) == [size |-> e.o[1], stype |-> e.o[2], dir |-> e.o[3], price |-> e.o[4], fees |-> e.o[5], ffees |-> e.o[6],
               slip |-> e.o[7], minsz |-> e.o[8], maxsz |-> e.o[9], gran |-> e.o[10], rp |-> e.o[11],
               lock |-> e.o[12], partial |-> e.o[13]]
OutOf(e) == [s |-> e.a[1], why |-> e.a[2], side |-> e.a[3], size |-> e.a[4], price |-> e.a[5], fees |-> e.a[6],
             cash |-> e.a[7], pos |-> e.a[8], debt |-> e.a[9], free |-> e.a[10]]
Match(x, y) == /\ x.s = y.s /\ x.why = y.why /\ x.side = y.side
               /\ Eq(x.size, y.size) /\ Eq(x.price, y.price) /\ Eq(x.fees, y.fees)
               /\ Eq(x.cash, y.cash) /\ Eq(x.pos, y.pos) /\ Eq(x.debt, y.debt) /\ Eq(x.free, y.free)
SameOrder(x, y) ==
    /\ x.stype = y.stype /\ x.dir = y.dir /\ x.lock = y.lock /\ x.partial = y.partial
    /\ \A f \in {"size", "price", "fees", "ffees", "slip", "minsz", "maxsz", "gran", "rp"} : Eq(x[f], y[f])

Calls(pr, t, col, kind) == SelectSeq(pr.calls[t.g][t.i], LAMBDA e : e.col + 1 = col /\ e.k = kind)
First(q) == q[1]
(* stop of column col after the adjustment functions ran *)
Adjusted(pr, t, col) ==
    LET st == t.stop[col]
        a == Calls(pr, t, col, "sl") b == Calls(pr, t, col, "tp")
        st1 == IF a = <<>> THEN st ELSE [st EXCEPT !.sl = First(a).ret[1], !.trail = First(a).trail]
    IN IF b = <<>> THEN st1 ELSE [st1 EXCEPT !.tp = First(b).ret[1]]
AdjustOk(pr, t, col) ==
    LET st == t.stop[col]
        a == Calls(pr, t, col, "sl") b == Calls(pr, t, col, "tp")
    IN /\ Len(a) = (IF pr.adjsl /\ pr.stops THEN 1 ELSE 0) /\ Len(b) = (IF pr.adjtp /\ pr.stops THEN 1 ELSE 0)
       /\ (a # <<>> => LET e == First(a) IN
              /\ e.i + 1 = t.i
              /\ e.init_i = st.si /\ Eq(e.v[1], st.sp) /\ e.curr_i = st.refi /\ Eq(e.v[2], st.ref) /\ Eq(e.v[3], st.sl)
              /\ e.curr_trail = st.trail /\ Eq(e.pos, t.pos[col]) /\ Eq(e.vp, t.lvp[col]))
       /\ (b # <<>> => LET e == First(b) IN
              /\ e.i + 1 = t.i
              /\ e.init_i = st.tpi /\ Eq(e.v[1], st.tpref) /\ Eq(e.v[2], st.tp)
              /\ Eq(e.pos, t.pos[col]) /\ Eq(e.vp, t.lvp[col]))
(* templates: names in the arguments of the functions stand for the arguments of the simulation, and an array given by name travels with the close *)
Names(pr) == [shape |-> <<pr.t, pr.n>>, ncash |-> Len(pr.from), init |-> pr.init, close |-> pr.close, sl |-> pr.sl, fees |-> pr.fees, stops |-> pr.stops,
              auto |-> pr.auto, ffill |-> pr.ffill, upd |-> pr.upd, orders |-> pr.t * pr.n, logs |-> pr.t * pr.n, flex |-> TRUE, cols |-> pr.n, spoon |-> 7]
TemplatesOk(pr, t) ==
    pr.own # <<>> => /\ pr.told = <<Names(pr)>>
                     /\ \A j \in 1..Len(pr.calls[t.g][t.i]) : LET e == pr.calls[t.g][t.i][j] IN e.own = pr.own[e.i + 1][e.col + 1]
(* own signals of the column: from arrays or from the signal function *)
Own(pr, t, col) ==
    IF pr.kind # "func" THEN OwnSignals(pr, t.i, col)
    ELSE LET f == Calls(pr, t, col, "sig") IN IF f = <<>> THEN Sig(FALSE, FALSE, FALSE, FALSE)
         ELSE Sig(First(f).ret[1], First(f).ret[2], First(f).ret[3], First(f).ret[4])
SigCallOk(pr, t, col, hit) ==
    LET f == Calls(pr, t, col, "sig") IN
    IF pr.kind # "func" THEN f = <<>>
    ELSE IF hit THEN f = <<>>
    ELSE Len(f) = 1 /\ First(f).i + 1 = t.i /\ Eq(First(f).pos, t.pos[col]) /\ Eq(First(f).vp, t.lvp[col])

EventOf(pr, t, col) == SelectSeq(pr.bars[t.g][t.i], LAMBDA e : e.col + 1 = col)
(* decisions that agree with what was recorded *)
Agrees(pr, t, col, x) ==
    LET e == EventOf(pr, t, col) IN
    IF x.d.ask = "order" THEN Len(e) = 1 /\ SameOrder(OrderOf(e[1]), x.d.o) ELSE x.d.ask = "none" /\ e = <<>>

RECURSIVE Fold(_, _, _, _)
(* go through the requests of the bar from the k-th on; dec is the chosen decision of each column *)
Fold(pr, t, dec, k) ==
    LET evs == pr.bars[t.g][t.i] IN
    IF k > Len(evs) THEN t
    ELSE LET e == evs[k]
             col == e.col + 1
             st == Account(pr, t, col)
             oc == OutOf(e)
             kept == Kept(pr, st, oc)
             o == OrderOf(e)
             okAcc == Eq(e.b[1], st.cash) /\ Eq(e.b[2], st.pos) /\ Eq(e.b[3], st.debt) /\ Eq(e.b[4], st.free)
                      /\ Eq(e.b[5], st.vp) /\ Eq(e.b[6], st.val)
             okOut == \E x \in Outcomes(st, o, FALSE) : Match(x, oc)
             okKept == Eq(e.n[1], kept.vp) /\ Eq(e.n[2], kept.val)
             t1 == [t EXCEPT !.cash = oc.cash, !.free = oc.free, !.pos = [@ EXCEPT ![col] = oc.pos],
                             !.debt = [@ EXCEPT ![col] = oc.debt], !.val = e.n[2],
                             !.lvp = [@ EXCEPT ![col] = IF ~NIsNaN(e.n[1]) \/ ~pr.ffill THEN e.n[1] ELSE @],
                             !.stop = [@ EXCEPT ![col] = IF oc.s = "Filled"
                                                         THEN NewStop(pr, t.i, col, @, st.pos, o, oc, e.n[1]) ELSE @]]
         IN IF /\ Ok(c, "a request sees the account the previous ones left", okAcc, [e |-> e, st |-> st])
               /\ Ok(c, "the outcome follows from the account and the request", okOut, [e |-> e, st |-> st])
               /\ Ok(c, "valuation price and value are kept up to date as asked", okKept, [e |-> e, kept |-> kept])
            THEN Fold(pr, t1, dec, k + 1) ELSE t

(* requests come in the call sequence *)
InOrder(pr, t, dec) ==
    LET evs == pr.bars[t.g][t.i]
        place(col) == CHOOSE j \in 0..(pr.to[t.g] - pr.from[t.g]) : pr.seq[t.i][pr.from[t.g] + j] = col - pr.from[t.g]
    IN \A j \in 1..(Len(evs) - 1) :
           IF ~pr.sharing THEN TRUE
           ELSE IF pr.auto THEN \A k \in (j + 1)..Len(evs) :
                   MayFollow(AskValue(pr, t, evs[j].col + 1, dec[evs[j].col + 1]), AskValue(pr, t, evs[k].col + 1, dec[evs[k].col + 1]))
           ELSE place(evs[j].col + 1) < place(evs[j + 1].col + 1)

TraceInit == c \in 1..Len(Cases) /\ s = SigStart(Cases[c]) /\ fin = FALSE
Give(pr, t) == [t EXCEPT !.i = pr.t + 1]
Bar ==
    /\ ~fin /\ ~Finished(Cases[c], s)
    /\ c' = c /\ fin' = FALSE
    /\ LET pr == Cases[c]
           o0 == SigOpenBar(pr, s)
           o1 == [o0 EXCEPT !.lvp = TLCEval(@)]
           cols == Cols(pr, s.g)
           st == TLCEval([x \in 1..pr.n |-> IF x \in cols THEN Adjusted(pr, o1, x) ELSE o1.stop[x]])
           ds == TLCEval([x \in 1..pr.n |-> IF x \in cols THEN Decide(pr, o1, x, st[x], Own(pr, o1, x)) ELSE {}])
           good == TLCEval([x \in 1..pr.n |-> {d \in ds[x] : Agrees(pr, o1, x, d)}])
           okAdj == \A x \in cols : AdjustOk(pr, o1, x)
           okDec == \A x \in cols : good[x] # {}
           dec == [x \in 1..pr.n |-> IF x \in cols THEN (CHOOSE d \in good[x] : TRUE).d ELSE NoAsk]
           okSig == \A x \in cols : \E d \in good[x] : SigCallOk(pr, o1, x, d.hit)
           next(t) == IF t.i < pr.t THEN [t EXCEPT !.i = @ + 1, !.act = FALSE]
                      ELSE IF t.g < Len(pr.from) THEN [t EXCEPT !.i = 1, !.g = @ + 1, !.act = FALSE, !.cash = pr.init[t.g + 1],
                                                                !.free = pr.init[t.g + 1]]
                      ELSE [t EXCEPT !.i = @ + 1, !.act = FALSE]
       IN IF /\ Ok(c, "adjustment functions see the current stop", okAdj,
                   [calls |-> pr.calls[s.g][s.i], stop |-> o1.stop, i |-> s.i])
             /\ Ok(c, "each bar asks for the orders its signals and stops call for", okDec,
                   [want |-> ds, got |-> pr.bars[s.g][s.i], i |-> s.i, pos |-> o1.pos, stop |-> st])
             /\ Ok(c, "the signal function is called once per bar without a stop, with the current position", okSig,
                   [calls |-> pr.calls[s.g][s.i], i |-> s.i, pos |-> o1.pos])
             /\ Ok(c, "functions get what the names in their arguments stand for", TemplatesOk(pr, s), [told |-> pr.told, calls |-> pr.calls[s.g][s.i], own |-> pr.own])
             /\ Ok(c, "requests come in the call sequence", InOrder(pr, o1, dec),
                   [got |-> pr.bars[s.g][s.i], av |-> [x \in 1..pr.n |-> AskValue(pr, o1, x, dec[x])]])
          THEN s' = next(Fold(pr, [o1 EXCEPT !.stop = TLCEval([x \in 1..pr.n |-> IF x \in cols
                                    THEN Trail(pr, s.i, x, NSgn(o1.pos[x]), st[x]) ELSE @[x]])], dec, 1))
          ELSE s' = next(Give(pr, [o1 EXCEPT !.g = Len(pr.from)]))
Done ==
    /\ ~fin /\ Finished(Cases[c], s)
    /\ fin' = TRUE /\ UNCHANGED <<c, s>>
    /\ LET pr == Cases[c] IN
       Ok(c, "every request belongs to the loop", pr.stray = 0, [n |-> pr.stray])
TraceNext == Bar \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
