---------------------------- MODULE ParamsTrace ----------------------------
(* Recorded runs of indicators and selections from them against Params.tla.    *)
EXTENDS Params, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k, cur, view
vars == <<c, k, cur, view>>
None == [g |-> 0, r |-> 0]
Cs(g) == TLCEval(Combos(g, Inputs(g).res[1].c))
Seen(w, got, what, o) ==
    /\ Ok(c, what \o ": column labels", got.cx = w.cx, [op |-> o, want |-> w.cx, got |-> got.cx])
    /\ Ok(c, what \o ": row labels", got.ix = w.ix, [op |-> o, want |-> w.ix, got |-> got.ix])
    /\ Ok(c, what \o ": outputs of each combination", got.out = SubSeq(w.out, 1, Len(got.out)), [op |-> o, want |-> w.out, got |-> got.out])
    /\ Ok(c, what \o ": in-place outputs", got.ino = w.ino, [op |-> o, want |-> w.ino, got |-> got.ino])
    /\ Ok(c, what \o ": inputs shown for each column", got.x = w.x /\ got.y = w.y, [op |-> o, want |-> <<w.x, w.y>>, got |-> <<got.x, got.y>>])
    /\ Ok(c, what \o ": parameter of each column", got.maps = w.maps, [op |-> o, want |-> w.maps, got |-> got.maps])
Kept(o) == Ok(c, "in-place outputs given by the user are left alone", \A u \in DOMAIN o.g.ino : o.g.ino[u].given => o.after[u] = o.g.ino[u].a.v, [op |-> o])
DoRun(o) ==
    LET b == Inputs(o.g) IN
    IF ~b.ok \/ ~Fits(o.g, b.res[1].c) THEN Ok(c, "parameters of different lengths are refused", o.raised, [op |-> o]) /\ UNCHANGED <<cur, view>>
    ELSE /\ Ok(c, "run", ~o.raised, [op |-> o])
         /\ IF o.raised THEN UNCHANGED <<cur, view>>
            ELSE LET cs == Cs(o.g) r == TLCEval(Run(o.g, cs)) v == TLCEval(View(r))
                 IN  /\ Seen(TLCEval(Show(r, v)), o.got, "run", o) /\ Kept(o)
                     /\ Ok(c, "series or frame", o.got.series = r.series, [op |-> o])
                     /\ Ok(c, "list of values of each parameter", o.got.lists = [p \in DOMAIN o.g.ps |-> [x \in DOMAIN cs |-> Val(o.g, cs[x], p).w]], [op |-> o])
                     /\ cur' = [g |-> o.g, r |-> r] /\ view' = v
DoCombs(o) ==
    LET g0 == [o.g EXCEPT !.percol = FALSE]
        cs == TLCEval(Combos(g0, Inputs(o.g).res[1].c))
        pk == TLCEval(Pick(Len(cs), o.r, o.how))
    IN  /\ UNCHANGED <<cur, view>> /\ Kept(o)
        /\ Ok(c, "number of indicators", Len(o.got) = IF pk = <<>> THEN 0 ELSE o.r, [op |-> o])
        /\ \A u \in DOMAIN o.got :
             LET g1 == [o.g EXCEPT !.pre = o.pre[u]] sub == [x \in DOMAIN pk |-> cs[pk[x][u]]] r == TLCEval(Run(g1, TLCEval(sub)))
             IN  Seen(TLCEval(Show(r, View(r))), o.got[u], "combination of runs", o)
DoSel(o) ==
    LET g == cur.g r == cur.r
        v == TLCEval(CASE o.how = "param" -> ByParam(g, r, view, o.ps, o.keys, o.single)
               [] o.how = "range" -> ByRange(g, r, view, o.ps[1], o.lo, o.hi, [l \in Rng(r.maps[o.ps[1]]) |-> (CHOOSE x \in Rng(g.ps[o.ps[1]].vals) : x.l = l).w[1]])
               [] OTHER -> ByPlace(view, o.cols, o.rows))
    IN  Seen(TLCEval(Show(r, v)), o.got, "selection", o) /\ view' = v /\ UNCHANGED cur
(* a library indicator: many at once against each alone *)
DoEach(o) ==
    LET b == Inputs(o.g) C == b.res[1].c cs == Cs(o.g) src == TLCEval(Source(o.g, cs, C))
        At(q) == o.tab[CHOOSE t \in DOMAIN o.tab : o.tab[t].key = cs[src[q][1]] /\ o.tab[t].j = src[q][2]].outs
    IN  /\ UNCHANGED <<cur, view>>
        /\ Ok(c, "library indicator: column labels", o.cx = Columns(o.g, cs, b.res[1].cx, C), [op |-> [o EXCEPT !.tab = <<>>], want |-> Columns(o.g, cs, b.res[1].cx, C)])
        /\ Ok(c, "library indicator: outputs", Len(o.got) = Len(src) /\ \A q \in DOMAIN src : o.got[q] = At(q), [op |-> [o EXCEPT !.tab = <<>>], want |-> [q \in DOMAIN src |-> At(q)]])
        /\ \A u \in DOMAIN o.combs :
             LET cs2 == o.combs[u].cs src2 == Source([o.g EXCEPT !.percol = FALSE], cs2, C)
             IN  Ok(c, "library indicator: combination of runs", cs2 = [x \in DOMAIN Pick(Len(cs), 2, "combinations") |-> cs[Pick(Len(cs), 2, "combinations")[x][u]]] /\ Len(o.combs[u].got) = Len(src2)
                    /\ \A q \in DOMAIN src2 : o.combs[u].got[q] = o.tab[CHOOSE t \in DOMAIN o.tab : o.tab[t].key = cs2[src2[q][1]] /\ o.tab[t].j = src2[q][2]].outs, [op |-> [o EXCEPT !.tab = <<>>]])
DoTree(o) == UNCHANGED <<cur, view>> /\ LET w == ByPosition(TLCEval(Tree(o.tree))) IN Ok(c, "values combined by a tree", o.got = w, [op |-> o, want |-> w])
TraceInit == c \in 1..Len(Cases) /\ k = 0 /\ cur = None /\ view = 0
Event == /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
         /\ LET o == Cases[c].ops[k'] IN CASE o.op = "run" -> DoRun(o) [] o.op = "combs" -> DoCombs(o) [] o.op = "sel" -> DoSel(o) [] o.op = "tree" -> DoTree(o) [] OTHER -> DoEach(o)
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ UNCHANGED <<c, cur, view>> /\ Emit(c)
TraceNext == Event \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
