---------------------------- MODULE TradesTrace ----------------------------
(* Recorded portfolios: the orders of every column are walked one by one; at   *)
(* the end the trade and position records are compared.                        *)
EXTENDS Trades, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, x, k, s, ie, ix, ip, lens
vars == <<c, x, k, s, ie, ix, ip, lens>>
RT == "1/100000000"
Near(a, b, w) == NSame(a, b, RT, RT) \/ (NIsFin(a) /\ NIsFin(b) /\ NLe(NAbs(NSub(a, b)), NMul("1/100000000", NAdd("1", NAbs(w)))))
RecOK(r, e, id, col) ==
    LET g == NMul(e.size, e.ep) IN
    /\ r.id = id /\ r.col = col /\ r.dir = e.dir /\ r.open = e.open /\ r.parent = e.parent
    /\ r.ei = e.ei /\ r.xi = e.xi
    /\ Near(r.v[1], e.size, "0") /\ Near(r.v[2], e.ep, "0") /\ Near(r.v[3], e.ef, "0") /\ Near(r.v[4], e.xp, "0") /\ Near(r.v[5], e.xf, "0")
    /\ Near(r.v[6], Pnl(e), g) /\ (NLe(g, "1/10000") \/ NSame(r.v[7], Return(e), "1/1000000", "1/1000000"))
(* `from`: records of earlier columns *)
AllOK(rs, es, from, col) ==
    /\ Len(rs) >= from + Len(es)
    /\ \A j \in 1..Len(es) : RecOK(rs[from + j], es[j], from + j - 1, col)
TraceInit == c \in 1..Len(Cases) /\ x = 1 /\ k = 0 /\ s = Out0(0) /\ ie = 0 /\ ix = 0 /\ ip = 0 /\ lens = <<>>
Order == /\ x <= Cases[c].n /\ k < Len(Cases[c].ord[x])
         /\ s' = TLCEval(Step(s, Cases[c].ord[x][k + 1])) /\ k' = k + 1
         /\ UNCHANGED <<c, x, ie, ix, ip, lens>>
Column == /\ x <= Cases[c].n /\ k = Len(Cases[c].ord[x])
          /\ LET pf == Cases[c]
                 f == TLCEval(Settle(s, pf.t, pf.last[x]))
             IN /\ Ok(c, "entry trades are the entries of the column's positions", AllOK(pf.en, f.en, ie, x), [x |-> x, want |-> f.en, got |-> pf.en, ord |-> pf.ord[x]])
                /\ Ok(c, "exit trades are the exits of the column's positions", AllOK(pf.ex, f.ex, ix, x), [x |-> x, want |-> f.ex, got |-> pf.ex, ord |-> pf.ord[x]])
                /\ Ok(c, "positions last from leaving zero to returning to it", AllOK(pf.ps, f.ps, ip, x), [x |-> x, want |-> f.ps, got |-> pf.ps, ord |-> pf.ord[x]])
                /\ Ok(c, "positions aggregated from entry trades are the same", AllOK(pf.ps2, f.ps, ip, x), [x |-> x, want |-> f.ps, got |-> pf.ps2])
                /\ (pf.known[x] => Ok(c, "profits of a column's positions add up to its total profit",
                       Near(Total(f.ps, LAMBDA r : Pnl(r)), pf.prof[x], pf.moved), [x |-> x, got |-> pf.prof[x], want |-> f.ps]))
                /\ ie' = ie + Len(f.en) /\ ix' = ix + Len(f.ex) /\ ip' = ip + Len(f.ps)
                /\ lens' = Append(lens, <<Len(f.en), Len(f.ex), Len(f.ps)>>)
                /\ s' = Out0(s.np + Len(f.ps) - Len(s.ps))
          /\ x' = x + 1 /\ k' = 0 /\ c' = c

(* ------------------------------------------------------------ derived *)
RECURSIVE Streak(_, _, _)
Streak(rs, j, win) ==     \* records of one column up to j
    IF j = 0 THEN 0
    ELSE LET p == rs[j].v[6] IN
         IF (win /\ NGt(p, "0")) \/ (~win /\ NLt(p, "0"))
         THEN 1 + (IF j > 1 /\ rs[j - 1].col = rs[j].col THEN Streak(rs, j - 1, win) ELSE 0) ELSE 0
InUnit(rs, v, u) == SelectSeq(rs, LAMBDA r : r.col >= v.from[u] /\ r.col <= v.to[u])
Mean(rs) == NDiv(Total(rs, LAMBDA r : r.v[6]), NNum(Len(rs)))
Var(rs) == LET m == Mean(rs) IN NDiv(Total(rs, LAMBDA r : NMul(NSub(r.v[6], m), NSub(r.v[6], m))), NNum(Len(rs) - 1))
Agg(v, rs) ==
    \A u \in 1..Len(v.from) :
        LET a == TLCEval(InUnit(rs, v, u))
            w == SelectSeq(a, LAMBDA r : NGt(r.v[6], "0"))
            l == SelectSeq(a, LAMBDA r : NLt(r.v[6], "0"))
            n == NNum(Len(a))
            wr == NDiv(NNum(Len(w)), n)
            gain == Total(w, LAMBDA r : r.v[6])
            loss == NAbs(Total(l, LAMBDA r : r.v[6]))
            got == v.agg
            nan == NSum([j \in 1..Len(a) |-> a[j].v[6]]) = "nan"
        IN /\ Ok(c, "trades are counted by outcome, side and status",
                 /\ got.count[u] = Len(a) /\ got.win[u] = Len(w) /\ got.lose[u] = Len(l)
                 /\ got.long[u] = Cardinality({j \in 1..Len(a) : a[j].dir = "Long"}) /\ got.short[u] = Cardinality({j \in 1..Len(a) : a[j].dir = "Short"})
                 /\ got.open[u] = Cardinality({j \in 1..Len(a) : a[j].open}) /\ got.closed[u] = Cardinality({j \in 1..Len(a) : ~a[j].open}),
                 [u |-> u, got |-> got, a |-> a])
           /\ Ok(c, "the win rate is the share of winning trades", NSame(got.rate[u], wr, RT, RT), [u |-> u, got |-> got, want |-> wr])
           /\ Ok(c, "the profit factor is gains by losses", NSame(got.factor[u], IF Len(a) = 0 THEN "nan" ELSE NDiv(gain, loss), RT, RT), [u |-> u, got |-> got, gain |-> gain, loss |-> loss])
           /\ Ok(c, "expectancy is the average gain and loss weighted by their rates",
                 NSame(got.expect[u], IF Len(a) = 0 THEN "nan" ELSE
                        NSub(IF Len(w) = 0 THEN "0" ELSE NMul(wr, NDiv(gain, NNum(Len(w)))),
                             IF Len(l) = 0 THEN "0" ELSE NMul(NSub("1", wr), NDiv(loss, NNum(Len(l))))), RT, RT), [u |-> u, got |-> got, a |-> a])
           /\ (~nan /\ Len(a) > 1 => LET sd == NSqrt(Var(a)) IN
                 NLe(sd, NMul("1/1000000", NAdd("1", NAbs(Mean(a))))) \/
                 Ok(c, "SQN is the mean profit by its deviation, scaled", NSame(got.sqn[u], NMul(NSqrt(n), NDiv(Mean(a), sd)), "1/1000000", "1/1000000"), [u |-> u, got |-> got, a |-> a]))
Done == /\ x = Cases[c].n + 1
        /\ LET pf == Cases[c] IN
           /\ Ok(c, "there are no further records", Len(pf.en) = ie /\ Len(pf.ex) = ix /\ Len(pf.ps) = ip, [en |-> ie, ex |-> ix, ps |-> ip])
           /\ Ok(c, "every trade belongs to its position", \A rs \in {pf.en, pf.ex} : \A j \in 1..Len(rs) : rs[j].parent < Len(pf.ps), <<>>)
           /\ Ok(c, "streaks count consecutive winners and losers of the column",
                 \A j \in 1..Len(pf.ex) : pf.ws[j] = Streak(pf.ex, j, TRUE) /\ pf.ls[j] = Streak(pf.ex, j, FALSE), [w |-> pf.ws, l |-> pf.ls])
           /\ \A w \in 1..Len(pf.views) : Agg(pf.views[w], pf[pf.views[w].kind])
        /\ Emit(c) /\ x' = x + 1 /\ UNCHANGED <<c, k, s, ie, ix, ip, lens>>
TraceNext == Order \/ Column \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
