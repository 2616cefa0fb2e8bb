--------------------------- MODULE CallbacksTrace ---------------------------
(* Validation of recorded simulations driven by user functions: every call    *)
(* must be the one the schedule demands and must see the state the            *)
(* specification predicts.                                                    *)
EXTENDS Callbacks, Rep, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k, s, m, q     \* q: [seq, avs, tokO, tokS, o, oc, col, log] of the current segment and call
vars == <<c, k, s, m, q>>

OrderOf(e) == [size |-> e[1], stype |-> e[2], dir |-> e[3], price |-> e[4], fees |-> e[5], ffees |-> e[6],
               slip |-> e[7], minsz |-> e[8], maxsz |-> e[9], gran |-> e[10], rp |-> e[11], lock |-> e[12], partial |-> e[13]]
Near0(x) == NNear(x, "0", "0", "1/1000000")
(* a return computed from a value that is nothing but rounding is not compared *)
EqR(a, b, base) == Near0(base) \/ NSame(a, b, "1/10000000", "1/10000000")
(* records are compared with room for the cancellation in their profits *)
EqW(a, b, w) == NSame(a, b, RT, AT) \/ (NIsFin(a) /\ NIsFin(b) /\ NLe(NAbs(NSub(a, b)), NMul("1/1000000000", NAdd("1", NAbs(w)))))
RecOK(r, x, col) ==
    IF r.id < 0 THEN x.id = 0 - 1
    ELSE /\ x.id = r.id /\ x.pid = r.id /\ x.col = col - 1 /\ x.ei = r.ei /\ x.dir = r.dir /\ x.open = r.open
         /\ (IF r.open THEN x.xi = 0 ELSE x.xi = r.xi)
         /\ Eq(x.v[1], r.esz) /\ Eq(x.v[2], NDiv(r.eg, r.esz)) /\ Eq(x.v[3], r.ef)
         /\ Eq(x.v[4], IF NEq(r.xsz, "0") THEN "nan" ELSE NDiv(r.xg, r.xsz)) /\ Eq(x.v[5], r.xf)
         /\ EqW(x.v[6], r.pnl, r.eg) /\ (Near0(r.eg) \/ EqR(x.v[7], r.ret, r.eg))
Seen(e, pr, i) ==
    /\ Ok(i, "slots not written yet are blank if asked for", e.used = 0, [e |-> e])
    /\ Ok(i, "a function sees the cash and free cash left so far",
          \A j \in 1..Len(pr.init) : Eq(e.u[j][1], m'.u[j].cash) /\ Eq(e.u[j][2], m'.u[j].free), [e |-> e, m |-> m'])
    /\ Ok(i, "a function sees positions, debts and valuation prices left so far",
          \A j \in 1..pr.n : Eq(e.c[j][1], m'.c[j].pos) /\ Eq(e.c[j][2], m'.c[j].debt) /\ Eq(e.c[j][3], m'.c[j].vp), [e |-> e, m |-> m'])
    /\ Ok(i, "a function sees the current value", \A j \in 1..Len(pr.init) : Eq(e.u[j][3], m'.u[j].value), [e |-> e, m |-> m'])
    /\ Ok(i, "a function sees the value two bars ago and the return",
          \A j \in 1..Len(pr.init) : Eq(e.u[j][4], m'.u[j].prev) /\ EqR(e.u[j][5], m'.u[j].ret, m'.u[j].prev), [e |-> e, m |-> m'])
    /\ Ok(i, "a function sees the latest record numbers",
          \A j \in 1..pr.n : e.ix[j][1] = m'.c[j].lo /\ e.ix[j][2] = m'.c[j].ll, [e |-> e, m |-> m'])
    /\ (pr.fillpos => Ok(i, "a function sees up-to-date position records",
          \A j \in 1..pr.n : RecOK(m'.c[j].rec, e.rec[j], j), [e |-> e, m |-> m']))

Tok(pr, p) == CASE p.pc \in {"preSim", "postSim"} -> 0
                [] p.pc \in {"preGroup", "preRow", "postGroup", "postRow"} -> 1
                [] p.pc \in {"preSeg", "postSeg"} -> 100 + (IF pr.row THEN p.i ELSE p.g)
                [] OTHER -> (IF Visible(pr, [p EXCEPT !.pc = "preSeg"]) THEN (100 + (IF pr.row THEN p.i ELSE p.g)) * 100 + p.i + 50 ELSE 0 - 1)
Q0 == [seq |-> <<>>, o |-> "", col |-> 0, log |-> FALSE]
OutOf(e) == [s |-> e.r[1], why |-> e.r[2], side |-> e.r[3], size |-> e.r[4], price |-> e.r[5], fees |-> e.r[6],
             cash |-> e.now[1], pos |-> e.now[2], debt |-> e.now[3], free |-> e.now[4]]
Match(x, y) == /\ x.s = y.s /\ x.why = y.why /\ x.side = y.side
               /\ Eq(x.size, y.size) /\ Eq(x.price, y.price) /\ Eq(x.fees, y.fees)
               /\ Eq(x.cash, y.cash) /\ Eq(x.pos, y.pos) /\ Eq(x.debt, y.debt) /\ Eq(x.free, y.free)

(* a permutation of the group that orders the approximate values ascending; the positions and cash at hand *)
ApproxAt(pr, mm, g, i, x) ==
    LET u == mm.u[UnitOf(pr, x)] IN
    ApproxOf(pr.stype[i][x], pr.dir[i][x], pr.size[i][x], u.cash, u.free, mm.c[x].pos, mm.c[x].vp, ValueOf(pr, mm, UnitOf(pr, x)))
SeqOK(pr, mm, g, i, e) ==
    LET n == GLen(pr, g)
        av == TLCEval([j \in 1..n |-> LET x == pr.from[g] + e.seq[j] IN
                         ApproxAt(pr, mm, g, i, x)])
    IN /\ {e.seq[j] : j \in 1..n} = 0..(n - 1)
       /\ CASE e.mode = 0 -> \A j \in 1..n : e.seq[j] = j - 1
            [] e.mode = 1 -> \A j \in 1..(n - 1) : \A l \in (j + 1)..n : MayFollow(av[j], av[l])
            [] e.mode = 2 -> \A j \in 1..n : e.seq[j] = n - j

TraceInit == c \in 1..Len(Cases) /\ k = 0 /\ s = Begin /\ m = Money0(Cases[c]) /\ q = Q0

(* what names stand for in templates of the functions' arguments *)
Names(pr) == [shape |-> <<pr.t, pr.n>>, lens |-> [g \in 1..Len(pr.from) |-> GLen(pr, g)], init |-> pr.init, sharing |-> pr.sharing, mask |-> pr.mask,
              close |-> pr.close, flex |-> TRUE, max |-> pr.max, pre |-> pr.callpre, cols |-> pr.n]
TemplatesOk(i) == k = 0 /\ s = Begin => LET pr == Cases[i] IN Ok(i, "names in templates stand for the arguments of the simulation", pr.told = <<>> \/ pr.told = <<Names(pr)>>, [told |-> pr.told])
(* an inactive segment: nothing is called *)
Silent ==
    /\ s.pc # "end" /\ ~Visible(Cases[c], s) /\ TemplatesOk(c)
    /\ s' = NextPos(Cases[c], s, FALSE) /\ c' = c /\ k' = k /\ q' = q
    /\ m' = IF s.pc = "preSeg" THEN Prepared(Cases[c], m, s.g, [x \in 1..Cases[c].n |-> "keep"]) ELSE Closed(Cases[c], m, s.i, s.g)

Call ==
    /\ s.pc # "end" /\ Visible(Cases[c], s) /\ k < Len(Cases[c].ev) /\ TemplatesOk(c)
    /\ k' = k + 1 /\ c' = c
    /\ LET pr == Cases[c]
           e == pr.ev[k']
           right == /\ e.k = s.pc
                    /\ (s.pc \in {"preGroup", "postGroup", "preSeg", "postSeg", "order", "postOrder"} => e.g = s.g)
                    /\ (s.pc \in {"preRow", "postRow", "preSeg", "postSeg", "order", "postOrder"} => e.i = s.i)
                    /\ (s.pc \in {"order", "postOrder"} => e.x = s.k)
                    /\ (s.pc \in {"preGroup", "postGroup", "preSeg", "postSeg"} => e.col = pr.from[s.g] - 1 /\ e.x = pr.to[s.g])
                    /\ (s.pc = "order" /\ ~pr.flex => e.col + 1 = pr.from[s.g] + q.seq[s.k + 1])
                    /\ (s.pc = "postOrder" => e.col + 1 = q.col)
       IN /\ Ok(c, "functions are called in the documented order", right, [e |-> e, s |-> s, q |-> q])
          /\ IF ~right THEN s' = [s EXCEPT !.pc = "end"] /\ m' = m /\ q' = [q EXCEPT !.col = 0 - 9]
             ELSE
             /\ Ok(c, "a function receives what the function above it returned", e.tok = Tok(pr, s), [e |-> e, s |-> s])
             /\ s' = NextPos(pr, s, s.pc = "order" /\ pr.flex /\ e.pick = 0 - 1)
             /\ q' = CASE s.pc = "preSeg" -> [q EXCEPT !.seq = IF pr.flex THEN <<>> ELSE e.seq]
                       [] s.pc = "order" -> [q EXCEPT !.o = OrderOf(e.o), !.col = IF pr.flex THEN e.pick + 1 ELSE e.col + 1, !.log = e.log]
                       [] OTHER -> q
             /\ CASE s.pc = "postSeg" -> m' = Closed(pr, m, s.i, s.g) /\ Seen(e, pr, c)
                  [] s.pc = "postOrder" ->
                       LET st == View(pr, m, q.col)
                           o == Priced(pr, q.o, s.i, q.col)
                           oc == OutOf(e)
                           kept == Kept(pr, st, oc)
                       IN /\ Ok(c, "the outcome follows from the account and the order",
                                \E x \in Outcomes(st, o, FALSE) : Match(x, oc), [e |-> e, st |-> st, o |-> o])
                          /\ Ok(c, "the account before the order is reported",
                                Eq(e.b[1], st.cash) /\ Eq(e.b[2], st.pos) /\ Eq(e.b[3], st.debt) /\ Eq(e.b[4], st.free)
                                /\ Eq(e.b[5], st.vp) /\ Eq(e.b[6], st.val), [e |-> e, st |-> st])
                          /\ Ok(c, "the account after the order is reported",
                                Eq(e.now[5], kept.vp) /\ Eq(e.now[6], kept.val)
                                /\ LET u == m.u[UnitOf(pr, q.col)] IN EqR(e.now[7], Ret(u.prev, kept.val), u.prev), [e |-> e, kept |-> kept])
                          /\ m' = Executed(pr, m, s.i, q.col, oc, kept, q.log)
                          /\ Seen(e, pr, c)
                  [] OTHER ->
                       (* m' is what the function sees; a prepared segment goes on below *)
                       /\ m' = m /\ Seen(e, pr, c)
                       /\ (s.pc = "order" /\ ~pr.flex =>
                              LET st == View(pr, m, q'.col) IN
                              Ok(c, "an order function sees the account of its column",
                                 Eq(e.now[1], st.cash) /\ Eq(e.now[2], st.pos) /\ Eq(e.now[3], st.debt) /\ Eq(e.now[4], st.free)
                                 /\ Eq(e.now[5], st.vp) /\ Eq(e.now[6], st.val)
                                 /\ LET u == m.u[UnitOf(pr, q'.col)] IN EqR(e.now[7], u.ret, u.prev), [e |-> e, st |-> st]))
(* preparing a visible segment: the call (above) and then the valuation *)
CallPrep ==
    /\ s.pc = "preSeg" /\ Visible(Cases[c], s) /\ k < Len(Cases[c].ev) /\ Cases[c].ev[k + 1].k = "preSeg"
    /\ LET pr == Cases[c] e == pr.ev[k + 1] IN
       /\ e.g = s.g /\ e.i = s.i
       /\ c' = c /\ k' = k + 1
       /\ LET mm == m IN
          /\ Ok(c, "functions are called in the documented order", e.col = pr.from[s.g] - 1 /\ e.x = pr.to[s.g], [e |-> e, s |-> s])
          /\ Ok(c, "a function receives what the function above it returned", e.tok = Tok(pr, s), [e |-> e, s |-> s])
          /\ m' = m /\ Seen(e, pr, c)
          /\ s' = [s EXCEPT !.pc = "prep"]
          /\ q' = q
Prep ==
    /\ s.pc = "prep"
    /\ LET pr == Cases[c] e == pr.ev[k] IN
       /\ m' = Prepared(pr, m, s.g, e.vset)
       /\ (~pr.flex => Ok(c, "the call sequence is sorted by the approximate values of the orders", SeqOK(pr, m', s.g, s.i, e),
                          [e |-> e, m |-> m']))
       /\ q' = [q EXCEPT !.seq = IF pr.flex THEN <<>> ELSE e.seq]
       /\ s' = NextPos(pr, [s EXCEPT !.pc = "preSeg"], FALSE)
       /\ c' = c /\ k' = k
(* the recording stops early: the library refused the order just asked for *)
Refused ==
    /\ s.pc # "end" /\ s.pc # "prep" /\ Visible(Cases[c], s) /\ k = Len(Cases[c].ev)
    /\ LET pr == Cases[c] IN
       /\ Ok(c, "the simulation runs to the end, or stops at an order that cannot be valid",
             pr.err /\ s.pc = "postOrder"
             /\ \E x \in Outcomes(View(pr, m, q.col), Priced(pr, q.o, s.i, q.col), FALSE) : IsErr(x), [s |-> s, q |-> q, err |-> pr.errmsg])
       /\ s' = [s EXCEPT !.pc = "end"] /\ UNCHANGED <<c, k, m>> /\ q' = [q EXCEPT !.col = 0 - 9]
End ==
    /\ s.pc = "end" /\ q.col # 0 - 8
    /\ LET pr == Cases[c]
           done == SelectSeq(pr.ev, LAMBDA e : e.k = "postOrder" /\ e.r[1] = "Filled")
       IN q.col # 0 - 9 =>
          /\ Ok(c, "no call after the end", k = Len(pr.ev) /\ ~pr.err, [k |-> k])
          /\ Ok(c, "order records are the filled orders in sequence",
                /\ Len(pr.ord) = Len(done)
                /\ \A j \in 1..Len(done) : LET r == pr.ord[j] e == done[j] IN
                     r.id = j - 1 /\ r.col = e.col /\ r.i = e.i - 1 /\ r.side = e.r[3] /\ Eq(r.size, e.r[4]) /\ Eq(r.price, e.r[5])
                     /\ Eq(r.fees, e.r[6]), [n |-> Len(done), m |-> Len(pr.ord)])
          /\ Ok(c, "log records are the orders that asked for them", Len(pr.logs) = m.nl, [n |-> m.nl, m |-> Len(pr.logs)])
    /\ Emit(c)
    /\ q' = [q EXCEPT !.col = 0 - 8] /\ UNCHANGED <<c, k, s, m>>
TraceNext == Silent \/ (s.pc # "preSeg" /\ s.pc # "prep" /\ Call) \/ CallPrep \/ Prep \/ Refused \/ End
           \/ (/\ s.pc = "preSeg" /\ Visible(Cases[c], s) /\ k < Len(Cases[c].ev)
               /\ ~(Cases[c].ev[k + 1].k = "preSeg" /\ Cases[c].ev[k + 1].g = s.g /\ Cases[c].ev[k + 1].i = s.i) /\ Call)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
