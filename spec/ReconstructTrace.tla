------------------------- MODULE ReconstructTrace -------------------------
(* Recorded portfolios: the bars of every portfolio are walked with the       *)
(* accounts of its columns, and every series it reports is compared.          *)
EXTENDS PfView, Rep, Json, IOUtils
Raw == ndJsonDeserialize(IOEnv.TRACE)
(* a case with operations is observed after them: what it is made of is derived *)
Viewed(k) == "ops" \in DOMAIN Raw[k]
VARIABLES c, i, accs, px, ini, prev, iso, der
vars == <<c, i, accs, px, ini, prev, iso, der>>
Case == IF Viewed(c) THEN der ELSE Raw[c]
Scale(pf) == pf.scale
RT == "1/100000000"
Eq(a, b) == NSame(a, b, RT, "1/100000000")
EqS(pf, a, b) == NSame(a, b, RT, pf.tol)          \* tol: 1e-9 of the money moved
(* a quotient by something that is only rounding is not compared *)
EqQ(pf, a, b, base) == (NIsFin(base) /\ NLe(NAbs(base), pf.small)) \/ NSame(a, b, "1/1000000", "1/1000000")

ColSum(f, v, u) == Sum(f, v.from[u], v.to[u])
Some(f, v, u) == \E x \in v.from[u]..v.to[u] : f[x]
Units(v) == 1..Len(v.from)

TraceInit ==
    /\ c \in 1..Len(Raw) /\ i = 0 - 1
    /\ der = IF Viewed(c) THEN Derived(Raw[c]) ELSE <<>>
    /\ LET pf == Case IN
       /\ accs = TLCEval([x \in 1..pf.n |-> Acc0])
       /\ px = TLCEval([x \in 1..pf.n |-> CloseOf(pf, x)])
       /\ ini = TLCEval([w \in 1..Len(pf.views) |-> InitCash(pf, pf.views[w])])
       /\ prev = TLCEval([w \in 1..Len(pf.views) |-> [u \in Units(pf.views[w]) |-> [val |-> ini[w][u], ben |-> ini[w][u], av |-> "0", inpos |-> 0, inpos0 |-> FALSE]]])
       /\ iso = <<>>

View(pf, w, av, now, b) ==
    LET v == pf.views[w]
        r == v.bars[b]
        cash == TLCEval([u \in Units(v) |-> NAdd(ini[w][u], ColSum([x \in 1..pf.n |-> now[x].cash], v, u))])
        free == TLCEval([u \in Units(v) |-> NAdd(ini[w][u], ColSum([x \in 1..pf.n |-> now[x].free], v, u))])
        avg == TLCEval([u \in Units(v) |-> ColSum(av, v, u)])
        lav == TLCEval([u \in Units(v) |-> ColSum([x \in 1..pf.n |-> IF NGt(now[x].pos, "0") THEN av[x] ELSE "0"], v, u)])
        sav == TLCEval([u \in Units(v) |-> ColSum([x \in 1..pf.n |-> IF NLt(now[x].pos, "0") THEN NNeg(av[x]) ELSE "0"], v, u)])
        gav == TLCEval([u \in Units(v) |-> ColSum([x \in 1..pf.n |-> NAbs(av[x])], v, u)])
        lag == TLCEval([u \in Units(v) |-> ColSum([x \in 1..pf.n |-> IF NGt(now[x].pos, "0") THEN NAbs(av[x]) ELSE "0"], v, u)])
        sag == TLCEval([u \in Units(v) |-> ColSum([x \in 1..pf.n |-> IF NLt(now[x].pos, "0") THEN NAbs(av[x]) ELSE "0"], v, u)])
        val == TLCEval([u \in Units(v) |-> NAdd(cash[u], avg[u])])
        ben == TLCEval([u \in Units(v) |->
                   NMul(NDiv(ini[w][u], NNum(v.to[u] - v.from[u] + 1)), ColSum([x \in 1..pf.n |-> NDiv(px[x][b], px[x][1])], v, u))])
        cf == TLCEval([u \in Units(v) |-> ColSum([x \in 1..pf.n |-> now[x].cf], v, u)])
        inp == TLCEval([u \in Units(v) |-> Some([x \in 1..pf.n |-> ~NEq(now[x].pos, "0")], v, u)])
        p == prev[w]
        All(P(_)) == \A u \in Units(v) : P(u)
        note == [view |-> w, bar |-> b, got |-> r]
    IN /\ Ok(c, "cash flow is the money moved by the bar's orders", All(LAMBDA u : EqS(pf, r.cf[u], cf[u])), note)
       /\ Ok(c, "free cash flow is the free money moved by the bar's orders",
             All(LAMBDA u : EqS(pf, r.ff[u], ColSum([x \in 1..pf.n |-> now[x].ff], v, u))), note)
       /\ Ok(c, "cash is the initial cash and the flows so far", All(LAMBDA u : EqS(pf, r.cash[u], cash[u])), [n |-> note, want |-> cash])
       /\ Ok(c, "free cash is the initial cash and the free flows so far", All(LAMBDA u : EqS(pf, r.free[u], free[u])), [n |-> note, want |-> free])
       /\ Ok(c, "asset value is assets at the close",
             All(LAMBDA u : EqS(pf, r.av[u], avg[u]) /\ EqS(pf, r.lav[u], lav[u]) /\ EqS(pf, r.sav[u], sav[u])), [n |-> note, want |-> avg])
       /\ Ok(c, "value is cash and asset value", All(LAMBDA u : EqS(pf, r.val[u], val[u])), [n |-> note, want |-> val])
       /\ Ok(c, "the return is the change of value", All(LAMBDA u : EqQ(pf, r.ret[u], Ret(p[u].val, val[u]), p[u].val)),
             [n |-> note, from |-> p, to |-> val])
       /\ Ok(c, "the asset return is the change of asset value and the cash taken out",
             All(LAMBDA u : IF p[u].inpos0 THEN EqQ(pf, r.aret[u], Ret(p[u].av, NAdd(avg[u], cf[u])), p[u].av)
                            ELSE \/ NSame(r.aret[u], Ret("0", NAdd(avg[u], cf[u])), "0", "0")
                                 \/ (NIsFin(avg[u]) /\ ~NEq(avg[u], "0") /\ NLe(NAbs(NAdd(avg[u], cf[u])), pf.small))), [n |-> note])
       /\ Ok(c, "gross exposure is the share of absolute asset value",
             All(LAMBDA u : /\ EqQ(pf, r.ge[u], Share(gav[u], free[u]), NAdd(gav[u], free[u]))
                            /\ EqQ(pf, r.lge[u], Share(lag[u], free[u]), NAdd(lag[u], free[u]))
                            /\ EqQ(pf, r.sge[u], Share(sag[u], free[u]), NAdd(sag[u], free[u]))), note)
       /\ Ok(c, "net exposure is long less short exposure",
             All(LAMBDA u : \/ (NIsFin(free[u]) /\ (NLe(NAbs(NAdd(lag[u], free[u])), pf.small) \/ NLe(NAbs(NAdd(sag[u], free[u])), pf.small)))
                            \/ NSame(r.ne[u], NSub(Share(lag[u], free[u]), Share(sag[u], free[u])), "1/1000000", "1/1000000")), note)
       /\ Ok(c, "the position mask is set exactly when an asset is held", All(LAMBDA u : r.mask[u] = inp[u]), note)
       /\ Ok(c, "benchmark value grows with the prices from the initial cash evenly spread",
             All(LAMBDA u : EqS(pf, r.bval[u], ben[u]) /\ EqQ(pf, r.bret[u], Ret(p[u].ben, ben[u]), p[u].ben)), [n |-> note, want |-> ben])
       /\ (b = pf.t =>
            LET tot == v.totals
                prof == [u \in Units(v) |-> NSub(val[u], ini[w][u])]
                first == [u \in Units(v) |-> NMul(NDiv(ini[w][u], NNum(v.to[u] - v.from[u] + 1)),
                                                 ColSum([x \in 1..pf.n |-> NDiv(px[x][1], px[x][1])], v, u))]
            IN /\ Ok(c, "initial cash is as given, or the most ever needed", All(LAMBDA u : EqS(pf, tot.init[u], ini[w][u])), [n |-> note, want |-> ini[w]])
               /\ Ok(c, "total profit is the change of value since the start", All(LAMBDA u : EqS(pf, tot.prof[u], prof[u])), [n |-> note, tot |-> tot, want |-> prof])
               /\ Ok(c, "final value is the last value", All(LAMBDA u : EqS(pf, tot.fin[u], val[u])), [n |-> note, tot |-> tot, want |-> val])
               /\ Ok(c, "total return is profit by initial cash", All(LAMBDA u : EqQ(pf, tot.ret[u], NDiv(prof[u], ini[w][u]), ini[w][u])), [n |-> note, tot |-> tot])
               /\ Ok(c, "total benchmark return is that of its value", All(LAMBDA u : EqQ(pf, tot.bret[u], Ret(first[u], ben[u]), first[u])), [n |-> note, tot |-> tot])
               /\ Ok(c, "position coverage is the share of bars (and columns) with a position",
                     All(LAMBDA u : Eq(tot.cov[u], NDiv(NNum(p[u].inpos + Cardinality({x \in v.from[u]..v.to[u] : ~NEq(now[x].pos, "0")})),
                                                       NNum(pf.t * (v.to[u] - v.from[u] + 1))))), [n |-> note, tot |-> tot]))

NextPrev(pf, w, av, now, b) ==
    LET v == pf.views[w] IN
    [u \in Units(v) |->
        [val |-> NAdd(NAdd(ini[w][u], ColSum([x \in 1..pf.n |-> now[x].cash], v, u)), ColSum(av, v, u)),
         av |-> ColSum(av, v, u), inpos0 |-> Some([x \in 1..pf.n |-> ~NEq(now[x].pos, "0")], v, u),
         ben |-> NMul(NDiv(ini[w][u], NNum(v.to[u] - v.from[u] + 1)), ColSum([x \in 1..pf.n |-> NDiv(px[x][b], px[x][1])], v, u)),
         inpos |-> prev[w][u].inpos + Cardinality({x \in v.from[u]..v.to[u] : ~NEq(now[x].pos, "0")})]]

(* the simulation order: cash and value after each column of the call sequence *)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(pf, now, av, b, g, k) ==
    (* the account of cash group g after the first k columns of bar b *)
    LET f == pf.from[g]
        x == f + pf.seq[b][f + k - 1]
    IN IF k = 0 THEN iso[g]
       ELSE LET q == TLCEval(Walk(pf, now, av, b, g, k - 1))
                a1 == [q.av EXCEPT ![x] = av[x]]
                cash1 == NAdd(q.cash, now[x].cf)
                free1 == NAdd(q.free, now[x].ff)
                val1 == NAdd(cash1, Sum(a1, f, pf.to[g]))
                r == pf.iso[b]
            IN IF /\ Ok(c, "cash in simulation order is the cash after the column's orders", EqS(pf, r.cash[x], cash1), [bar |-> b, col |-> x, got |-> r, want |-> cash1])
                  /\ Ok(c, "free cash in simulation order is the free cash after the column's orders", EqS(pf, r.free[x], free1), [bar |-> b, col |-> x, got |-> r, want |-> free1])
                  /\ Ok(c, "value in simulation order is the group's value after the column's orders", EqS(pf, r.val[x], val1), [bar |-> b, col |-> x, got |-> r, want |-> val1])
                  /\ Ok(c, "the return in simulation order is the change of that value", EqQ(pf, r.ret[x], Ret(q.last, val1), q.last), [bar |-> b, col |-> x, got |-> r, from |-> q.last, to |-> val1])
               THEN [cash |-> cash1, free |-> free1, last |-> val1, av |-> a1] ELSE q

BarStep ==
    /\ i \in 0..(Case.t - 1) /\ i' = i + 1 /\ c' = c /\ der' = der /\ px' = px /\ ini' = ini
    /\ LET pf == Case
           now == TLCEval([x \in 1..pf.n |-> Bar(accs[x], pf.ord[x], i + 1)])
           av == TLCEval([x \in 1..pf.n |-> Worth(now[x].pos, px[x][i + 1])])
           r == pf.cols[i + 1]
       IN /\ accs' = now
          /\ Ok(c, "asset flow is the amount moved by the bar's orders",
                \A x \in 1..pf.n : Eq(r.fb[x], now[x].fb) /\ Eq(r.fl[x], now[x].fl) /\ Eq(r.fs[x], now[x].fs), [bar |-> i + 1, got |-> r, want |-> now])
          /\ Ok(c, "assets are the flows so far, by side",
                \A x \in 1..pf.n : Eq(r.pos[x], now[x].pos) /\ Eq(r.lpos[x], Pos(now[x].pos)) /\ Eq(r.spos[x], Neg(now[x].pos)),
                [bar |-> i + 1, got |-> r, want |-> now])
          /\ Ok(c, "position masks by side follow the assets",
                \A x \in 1..pf.n : r.lm[x] = NGt(now[x].pos, "0") /\ r.sm[x] = NLt(now[x].pos, "0"), [bar |-> i + 1, got |-> r])
          /\ (pf.sim =>
                /\ Ok(c, "assets are what the simulation held after the bar's last order",
                      \A x \in 1..pf.n : pf.last[i + 1][x] = <<>> \/ Eq(pf.last[i + 1][x][2], now[x].pos), [bar |-> i + 1, want |-> now])
                /\ Ok(c, "cash and free cash are what the simulation held after the bar's last order",
                      \A w \in 1..Len(pf.views) : pf.views[w].simulated =>
                        \A u \in Units(pf.views[w]) : LET l == pf.views[w].last[i + 1][u] IN l = <<>> \/
                            (EqS(pf, pf.views[w].bars[i + 1].cash[u], l[1]) /\ EqS(pf, pf.views[w].bars[i + 1].free[u], l[2])), [bar |-> i + 1]))
          /\ \A w \in 1..Len(pf.views) : View(pf, w, av, now, i + 1)
          /\ prev' = TLCEval([w \in 1..Len(pf.views) |-> NextPrev(pf, w, av, now, i + 1)])
          /\ iso' = IF ~pf.hasiso THEN iso ELSE TLCEval([g \in 1..Len(pf.from) |-> Walk(pf, now, av, i + 1, g, pf.to[g] - pf.from[g] + 1)])
(* ------------------------------------------------ after the operations *)
Selected(pf) ==
    LET w == pf.w
        b == pf.base
        at(x) == w.cols[x] + 1
        n == Len(w.cols)
    IN /\ Ok(c, "operations are allowed or refused as documented", pf.oks = Verdicts(Start0(b), pf.ops, b.sharing), [ops |-> pf.ops, oks |-> pf.oks])
       /\ Ok(c, "the columns are the selected ones, in order", pf.labels = w.cols /\ pf.dims = <<w.ndim, G!GNdim(w)>>, [ops |-> pf.ops, got |-> pf.labels, dims |-> pf.dims, want |-> w])
       /\ Ok(c, "the groups are the selected or given ones", pf.groups = w.grp, [ops |-> pf.ops, got |-> pf.groups, want |-> w])
       /\ Ok(c, "prices and call sequence go with their columns",
             pf.gotclose = pf.close /\ pf.gotseq = pf.seq, [ops |-> pf.ops, got |-> <<pf.gotclose, pf.gotseq>>])
       /\ \A k \in 1..Len(pf.recs) :
             Ok(c, "records go with their columns and keep their identity",
                /\ pf.recs[k].cols = [x \in 1..n |-> b.recs[k].cols[at(x)]]
                /\ pf.recs[k].name = b.recs[k].name, [ops |-> pf.ops, got |-> pf.recs[k], want |-> [x \in 1..n |-> b.recs[k].cols[at(x)]]])
       /\ \A k \in 1..Len(pf.sel) :
             Ok(c, "records selected after computing are those computed after selecting",
                pf.sel[k].cols = [x \in 1..n |-> b.recs[k].cols[at(x)]], [ops |-> pf.ops, got |-> pf.sel[k], want |-> [x \in 1..n |-> b.recs[k].cols[at(x)]]])
       /\ \A k \in 1..Len(pf.views) : LET v == pf.views[k] IN
             \A u \in 1..Len(v.from) :
               LET key == [x \in 1..(v.to[u] - v.from[u] + 1) |-> w.cols[v.from[u] + x - 1]]
                   ref == SelectSeq(pf.refs, LAMBDA r : r.key = key /\ r.kind = v.ref)
               IN v.ref = "" \/ (/\ Ok(c, "every unit consists of the columns of its group", Len(ref) = 1, [ops |-> pf.ops, view |-> v.kind, unit |-> u, key |-> key])
                               /\ (Len(ref) = 1 => \A m \in 1..Len(pf.names) :
                                    Ok(c, "the metrics of a unit are those of its columns alone",
                                       NSame(v.metrics[m][u], ref[1].metrics[m], "1/1000000", "1/1000000"),
                                       [ops |-> pf.ops, view |-> v.kind, unit |-> u, metric |-> pf.names[m], got |-> v.metrics[m][u], want |-> ref[1].metrics[m]])))
Start ==
    /\ i = 0 - 1 /\ i' = 0
    /\ (Viewed(c) => Selected(Case))
    /\ iso' = IF ~Case.hasiso THEN <<>> ELSE [g \in 1..Len(Case.from) |-> LET pf == Case m == ini[1][g] IN
                 [cash |-> m, free |-> m, last |-> m, av |-> [x \in pf.from[g]..pf.to[g] |-> "0"]]]
    /\ UNCHANGED <<c, der, accs, px, ini, prev>>
Done ==
    /\ i = Case.t
    /\ Ok(c, "every order belongs to a bar", \A x \in 1..Case.n : accs[x].k = Len(Case.ord[x]), <<>>)
    /\ Emit(c) /\ i' = i + 1 /\ UNCHANGED <<c, der, accs, px, ini, prev, iso>>
TraceNext == Start \/ BarStep \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
