----------------------------- MODULE Callbacks ------------------------------
(* Simulation driven by user functions.                                       *)
(*                                                                            *)
(* The schedule: which function is called next.  A position s is              *)
(* [pc, i, g, k]; pc names the next function, i and g the bar and group       *)
(* (from 1), k the index of the call within the segment (from 0).  Segments   *)
(* are walked group by group (pr.row = FALSE) or bar by bar (pr.row = TRUE).  *)
EXTENDS FromOrders

Groups(pr) == Len(pr.from)
GLen(pr, g) == pr.to[g] - pr.from[g] + 1
Visible(pr, s) == CASE s.pc = "preSeg" -> pr.callpre \/ pr.mask[s.i][s.g]
                    [] s.pc = "postSeg" -> pr.callpost \/ pr.mask[s.i][s.g]
                    [] OTHER -> TRUE
(* stop: (flexible order functions) no more orders in this segment *)
NextPos(pr, s, stop) ==
    CASE s.pc = "preSim" -> [s EXCEPT !.pc = IF pr.row THEN "preRow" ELSE "preGroup", !.i = 1, !.g = 1]
      [] s.pc \in {"preGroup", "preRow"} -> [s EXCEPT !.pc = "preSeg"]
      [] s.pc = "preSeg" -> [s EXCEPT !.pc = IF pr.mask[s.i][s.g] THEN "order" ELSE "postSeg", !.k = 0]
      [] s.pc = "order" -> [s EXCEPT !.pc = IF stop THEN "postSeg" ELSE "postOrder"]
      [] s.pc = "postOrder" -> IF ~pr.flex /\ s.k + 1 = GLen(pr, s.g) THEN [s EXCEPT !.pc = "postSeg"]
                               ELSE [s EXCEPT !.pc = "order", !.k = @ + 1]
      [] s.pc = "postSeg" -> IF pr.row
                             THEN IF s.g < Groups(pr) THEN [s EXCEPT !.pc = "preSeg", !.g = @ + 1] ELSE [s EXCEPT !.pc = "postRow"]
                             ELSE IF s.i < pr.t THEN [s EXCEPT !.pc = "preSeg", !.i = @ + 1] ELSE [s EXCEPT !.pc = "postGroup"]
      [] s.pc = "postGroup" -> IF s.g < Groups(pr) THEN [s EXCEPT !.pc = "preGroup", !.g = @ + 1, !.i = 1] ELSE [s EXCEPT !.pc = "postSim"]
      [] s.pc = "postRow" -> IF s.i < pr.t THEN [s EXCEPT !.pc = "preRow", !.i = @ + 1, !.g = 1] ELSE [s EXCEPT !.pc = "postSim"]
      [] s.pc = "postSim" -> [s EXCEPT !.pc = "end"]
Begin == [pc |-> "preSim", i |-> 1, g |-> 1, k |-> 0]

---------------------------------------------------------------------------
(* What the functions see.  m.u[j] = [cash, free, value, prev, ret, last2] of *)
(* cash unit j (a group with cash sharing, else a column), m.c[c] =           *)
(* [pos, debt, vp, lo, ll, rec] of column c; m.no and m.nl count records.     *)
UnitOf(pr, c) == IF pr.sharing THEN CHOOSE g \in 1..Groups(pr) : c \in Cols(pr, g) ELSE c
UnitsOf(pr, g) == IF pr.sharing THEN {g} ELSE Cols(pr, g)
NoRec == [id |-> 0 - 1, dir |-> "", open |-> FALSE, ei |-> 0, xi |-> 0, esz |-> "0", eg |-> "0", ef |-> "0", xsz |-> "0",
          xg |-> "0", xf |-> "0", pnl |-> "nan", ret |-> "nan"]
Money0(pr) ==
    [u |-> [j \in 1..Len(pr.init) |-> [cash |-> pr.init[j], free |-> pr.init[j], value |-> pr.init[j], prev |-> pr.init[j],
                                       ret |-> "nan", tmp |-> pr.init[j]]],
     c |-> [c \in 1..pr.n |-> [pos |-> "0", debt |-> "0", vp |-> "nan", lo |-> 0 - 1, ll |-> 0 - 1, rec |-> NoRec]],
     no |-> 0, nl |-> 0]
Ret(a, b) == IF NEq(a, "0") THEN (IF NEq(b, "0") THEN "0" ELSE IF NIsNaN(b) THEN "nan" ELSE NMul("inf", NNum(NSgn(b))))
             ELSE LET r == NDiv(NSub(b, a), a) IN IF NLt(a, "0") THEN NNeg(r) ELSE r
Worth(m, c) == IF NEq(m.c[c].pos, "0") THEN "0" ELSE NMul(m.c[c].pos, m.c[c].vp)
RECURSIVE Sum(_, _, _)
Sum(m, c, to) == IF c > to THEN "0" ELSE NAdd(Worth(m, c), Sum(m, c + 1, to))
ValueOf(pr, m, j) == NAdd(m.u[j].cash, IF pr.sharing THEN Sum(m, pr.from[j], pr.to[j]) ELSE Worth(m, j))

(* Records of open positions: totals of entries and exits, valued at price p *)
Stats(r, left, p) ==
    LET exitval == NAdd(IF NEq(r.xsz, "0") THEN "0" ELSE r.xg, NMul(left, p))
        diff == IF r.dir = "Long" THEN NSub(exitval, r.eg) ELSE NSub(r.eg, exitval)
        pnl == NSub(NSub(diff, r.ef), r.xf)
    IN [r EXCEPT !.pnl = pnl, !.ret = NDiv(pnl, r.eg)]
Revalue(m, c, p) == [m EXCEPT !.c[c].rec = IF @.id >= 0 /\ @.open THEN Stats(@, NAbs(m.c[c].pos), p) ELSE @]
Opened(r, i, size, price, fees, side) ==
    [NoRec EXCEPT !.id = r.id + 1, !.dir = IF side = "Buy" THEN "Long" ELSE "Short", !.open = TRUE, !.ei = i,
                  !.esz = size, !.eg = NMul(size, price), !.ef = fees]
RecordAfter(r, i, p0, p1, oc) ==
    IF NEq(p0, "0") THEN IF NEq(p1, "0") THEN r ELSE Stats(Opened(r, i, oc.size, oc.price, oc.fees, oc.side), NAbs(p1), oc.price)
    ELSE IF NEq(p1, "0")
    THEN Stats([r EXCEPT !.open = FALSE, !.xi = i, !.xsz = NAdd(@, NAbs(p0)), !.xg = NAdd(@, NMul(NAbs(p0), oc.price)),
                         !.xf = NAdd(@, oc.fees)], "0", oc.price)
    ELSE IF NSgn(p0) # NSgn(p1)
    THEN LET left == NAbs(p1) IN
         Stats(Opened(r, i, left, oc.price, NMul(NDiv(left, NAbs(NSub(p1, p0))), oc.fees), oc.side), left, oc.price)
    ELSE IF NLe(NAbs(p0), NAbs(p1))
    THEN Stats([r EXCEPT !.esz = NAdd(@, oc.size), !.eg = NAdd(@, NMul(oc.size, oc.price)), !.ef = NAdd(@, oc.fees)], NAbs(p1), oc.price)
    ELSE Stats([r EXCEPT !.xsz = NAdd(@, oc.size), !.xg = NAdd(@, NMul(oc.size, oc.price)), !.xf = NAdd(@, oc.fees)], NAbs(p1), oc.price)

(* After the segment is prepared: positions and value at the valuation prices left by the user *)
Prepared(pr, m, g, vset) ==
    LET m1 == [m EXCEPT !.c = [c \in 1..pr.n |-> IF c \in Cols(pr, g) /\ vset[c] # "keep" THEN [@[c] EXCEPT !.vp = vset[c]] ELSE @[c]]]
        m2 == [m1 EXCEPT !.c = [c \in 1..pr.n |-> IF c \in Cols(pr, g) /\ pr.fillpos THEN Revalue(m1, c, m1.c[c].vp).c[c] ELSE @[c]]]
    IN [m2 EXCEPT !.u = [j \in 1..Len(pr.init) |-> IF j \in UnitsOf(pr, g)
            THEN LET v == ValueOf(pr, m2, j) IN [@[j] EXCEPT !.value = v, !.ret = Ret(m.u[j].prev, v)] ELSE @[j]]]

(* When the segment ends: positions and value at the close; the second last value moves on *)
Closed(pr, m, i, g) ==
    LET m1 == [m EXCEPT !.c = [c \in 1..pr.n |-> IF c \in Cols(pr, g) /\ (~NIsNaN(pr.close[i][c]) \/ ~pr.ffill)
                                                  THEN [@[c] EXCEPT !.vp = pr.close[i][c]] ELSE @[c]]]
        m2 == [m1 EXCEPT !.u = [j \in 1..Len(pr.init) |-> IF j \in UnitsOf(pr, g)
            THEN LET v == ValueOf(pr, m1, j) IN [@[j] EXCEPT !.value = v, !.prev = m1.u[j].tmp, !.tmp = v, !.ret = Ret(m1.u[j].tmp, v)] ELSE @[j]]]
    IN [m2 EXCEPT !.c = [c \in 1..pr.n |-> IF c \in Cols(pr, g) /\ pr.fillpos THEN Revalue(m2, c, m2.c[c].vp).c[c] ELSE @[c]]]

View(pr, m, c) == LET u == m.u[UnitOf(pr, c)] x == m.c[c] IN
    [cash |-> u.cash, free |-> u.free, pos |-> x.pos, debt |-> x.debt, vp |-> x.vp, val |-> u.value]
(* after column c's order had outcome oc *)
Executed(pr, m, i, c, oc, kept, logged) ==
    LET j == UnitOf(pr, c)
        st == View(pr, m, c)
        filled == oc.s = "Filled"
        x == m.c[c]
        r1 == IF filled /\ pr.fillpos THEN RecordAfter(x.rec, i, st.pos, oc.pos, oc) ELSE x.rec
    IN [m EXCEPT !.u[j] = [@ EXCEPT !.cash = oc.cash, !.free = oc.free, !.value = kept.val, !.ret = Ret(m.u[j].prev, kept.val)],
                 !.c[c] = [@ EXCEPT !.pos = oc.pos, !.debt = oc.debt, !.rec = r1,
                                    !.vp = IF ~NIsNaN(kept.vp) \/ ~pr.ffill THEN kept.vp ELSE @,
                                    !.lo = IF filled THEN m.no ELSE @, !.ll = IF logged THEN m.nl ELSE @],
                 !.no = @ + (IF filled THEN 1 ELSE 0), !.nl = @ + (IF logged THEN 1 ELSE 0)]

(* price asked for, with the infinite ones resolved *)
Priced(pr, o, i, c) == [o EXCEPT !.price = IF @ = "inf" THEN pr.close[i][c]
                                           ELSE IF @ = "-inf" THEN (IF i > 1 THEN pr.close[i - 1][c] ELSE "nan") ELSE @]
=============================================================================
