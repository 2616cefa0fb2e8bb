---------------------------- MODULE EpisodesTrace ---------------------------
(* A case is a table of series (or of given ranges) and a chain of selections,  *)
(* filters and regroupings with looks at the records in between.                *)
EXTENDS Episodes, Grouping, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k, s
TolR == "1/1000000000"
Start(t) == [n |-> t.n, w |-> [rows |-> <<>>, cols |-> [i \in 1..Len(t.x) |-> i], grp |-> <<>>, ndim |-> 2, gnd |-> 0], x |-> t.x,
             recs |-> [i \in 1..Len(t.x) |->
                CASE t.kind = "draws" -> DrawdownsOf(DRun(t.x[i], Len(t.x[i])))
                  [] t.kind = "ranges" -> RangesOf(RRun([j \in 1..Len(t.x[i]) |-> IF NIsNaN(t.gap) THEN NIsNaN(t.x[i][j]) ELSE NEq(t.x[i][j], t.gap)], Len(t.x[i])))
                  [] t.kind = "given" -> t.given[i]]]
Do(t, o) == CASE o.op = "cols" -> [t EXCEPT !.w = Cols(t.w, o.p, FALSE), !.x = PickSeq(t.x, o.p), !.recs = PickSeq(t.recs, o.p)]
              [] o.op = "regroup" -> [t EXCEPT !.w = Regroup(t.w, o.p)]
              [] o.op = "status" -> [t EXCEPT !.recs = [i \in 1..Len(t.recs) |-> SelectSeq(t.recs[i], LAMBDA r : r.open = o.open)]]
Units(t, by) == IF by /\ Grouped(t.w) THEN LET g == Distinct(t.w.grp) IN [u \in 1..Len(g) |-> Members(t.w.grp, g[u])] ELSE [u \in 1..Len(t.w.cols) |-> <<u - 1>>]
Of(t, u) == Joined(PickSeq(t.recs, u))
SameNum(a, b) == NSame(a, b, TolR, TolR)
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameNum(a[i], b[i])
Plain == {"mask"}
Judge(got, want, tag, o) == \A f \in DOMAIN want :
    Ok(c, f \o tag, IF f \in Plain THEN got[f] = want[f] ELSE IF f \in {"count", "avgdur", "maxdur", "open", "closed"} THEN SameNum(got[f], want[f]) ELSE SameSeq(got[f], want[f]),
       [at |-> k, got |-> got[f], want |-> want[f]])
Look(o, kind) ==
    \A b \in {"own", "cols"} : LET us == Units(s, b = "own") IN
      /\ Ok(c, "number of units", Len(o[b]) = Len(us), [at |-> k, got |-> Len(o[b])])
      /\ Len(o[b]) = Len(us) => \A u \in 1..Len(us) :
            /\ Judge(o[b][u].rsum, TLCEval(RangeSum(Of(s, us[u]), s.n, Len(us[u]))), " of the ranges", o)
            /\ kind = "draws" => LET w == TLCEval(DrawSum(Of(s, us[u]))) IN
                 \A f \in DOMAIN w : f \in {"active", "recovered"} \/ Ok(c, f \o " of the drawdowns", SameSeq(o[b][u].dsum[f], w[f]), [at |-> k, unit |-> u, got |-> o[b][u].dsum[f], want |-> w[f]])
Exact(o, kind) == \A i \in 1..Len(s.recs) :
    /\ Ok(c, "records of a column", o.recs[i] = s.recs[i], [at |-> k, got |-> o.recs[i], want |-> s.recs[i], x |-> IF kind = "given" THEN <<>> ELSE s.x[i]])
    /\ kind # "given" => Ok(c, "the series kept with the records", o.ts[i] = s.x[i], [at |-> k, got |-> o.ts[i], want |-> s.x[i]])
    /\ kind = "draws" => LET w == TLCEval(DrawSum(s.recs[i])) IN
         /\ Ok(c, "the last active drawdown", SameSeq(o.active[i], w.active), [at |-> k, got |-> o.active[i], want |-> w.active])
         /\ Ok(c, "metrics of recovered drawdowns", SameSeq(o.recovered[i], w.recovered), [at |-> k, got |-> o.recovered[i], want |-> w.recovered])
TraceInit == c \in 1..Len(Cases) /\ k = 0 /\ s = TLCEval(Start(Cases[c]))
Event == /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
         /\ LET o == Cases[c].ops[k'] IN
            IF o.op = "look" THEN s' = s /\ Look(o, Cases[c].kind) /\ Exact(o, Cases[c].kind)
            ELSE s' = TLCEval(Do(s, o))
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ Emit(c) /\ UNCHANGED <<c, s>>
TraceNext == Event \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_<<c, k, s>>
=============================================================================
