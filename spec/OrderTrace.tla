----------------------------- MODULE OrderTrace -----------------------------
(* Validation of recorded order executions.  A case is one simulation; each   *)
(* event carries the account before the order, the order, the outcome, and    *)
(* the valuation price and value kept afterwards.                             *)
EXTENDS OrderExec, Rep, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
vars == <<c, k>>

OrderOf(e) == [size |-> e.o[1], stype |-> e.o[2], dir |-> e.o[3], price |-> e.o[4], fees |-> e.o[5], ffees |-> e.o[6],
               slip |-> e.o[7], minsz |-> e.o[8], maxsz |-> e.o[9], gran |-> e.o[10], rp |-> e.o[11],
               lock |-> e.o[12], partial |-> e.o[13]]
StateOf(e) == [cash |-> e.b[1], pos |-> e.b[2], debt |-> e.b[3], free |-> e.b[4], vp |-> e.b[5], val |-> e.b[6]]
(* a: s, why, side, size, price, fees, cash, pos, debt, free *)
OutOf(e) == [s |-> e.a[1], why |-> e.a[2], side |-> e.a[3], size |-> e.a[4], price |-> e.a[5], fees |-> e.a[6],
             cash |-> e.a[7], pos |-> e.a[8], debt |-> e.a[9], free |-> e.a[10]]
Match(x, y) == /\ x.s = y.s /\ x.why = y.why /\ x.side = y.side
               /\ Eq(x.size, y.size) /\ Eq(x.price, y.price) /\ Eq(x.fees, y.fees)
               /\ Eq(x.cash, y.cash) /\ Eq(x.pos, y.pos) /\ Eq(x.debt, y.debt) /\ Eq(x.free, y.free)

CheckOrder(id, e, ex) ==
    LET st == StateOf(e) o == OrderOf(e) oc == OutOf(e) outs == Outcomes(st, o, ex) IN
    /\ Ok(id, "order outcome is one the execution rules allow", \E x \in outs : Match(x, oc), [e |-> e, allowed |-> outs])
    /\ Ok(id, "account laws of an executed order", IsErr(oc) \/ Laws(st, o, oc), [e |-> e])

TraceInit == c \in 1..Len(Cases) /\ k = 0
TraceNext == /\ k < Len(Cases[c].ev)
             /\ k' = k + 1 /\ c' = c
             /\ CheckOrder(c, Cases[c].ev[k'], Cases[c].ex)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
