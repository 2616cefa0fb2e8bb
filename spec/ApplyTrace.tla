----------------------------- MODULE ApplyTrace -----------------------------
(* Recorded applications, reductions and combinations against Apply.tla.       *)
EXTENDS Apply, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
TraceInit == c \in 1..Len(Cases) /\ k = 0
Numeric == {"min", "max", "mean", "median", "std", "sum", "count", "describe", "zscore"}
Near(a, b) == DOMAIN a = DOMAIN b /\ \A i \in DOMAIN a : DOMAIN a[i] = DOMAIN b[i] /\ \A j \in DOMAIN a[i] : NSame(a[i][j], b[i][j], "1/1000000000", "1/1000000000")
Perm(a, b) == Len(a) = Len(b) /\ \A x \in Rng(a) \cup Rng(b) : Len(Where(a, x)) = Len(Where(b, x))
Look == /\ k = 0 /\ k' = 1 /\ c' = c
        /\ LET x == Cases[c] g == x.got IN
           /\ Ok(c, "an operation leaves its object as it was", g.kept, [o |-> x.o])
           /\ IF x.o.op = "shuffle"
              THEN /\ Ok(c, "shuffling with a seed repeats", g.t = g.again, g)
                   /\ Ok(c, "shuffling permutes each column", [g.t EXCEPT !.m = x.t.m] = x.t /\ \A j \in 1..NC(x.t) : Perm(ColOf(x.t, j), ColOf(g.t, j)), g)
              ELSE LET w == TLCEval(Out(TLCEval(x.t), TLCEval(x.o))) IN
                   /\ Ok(c, "labels of a result", g.t.ser = w.ser /\ g.t.ix = w.ix /\ g.t.cx = w.cx, [want |-> w, got |-> g.t])
                   /\ Ok(c, "elements of a result", IF x.o.op \in Numeric \/ (x.o.op = "counts" /\ "normalize" \in Rng(x.o.opts)) THEN Near(g.t.m, w.m) ELSE g.t.m = w.m, [want |-> w, got |-> g.t])
                   /\ x.o.op = "filter" => Ok(c, "elements asked about", {g.calls[i] : i \in DOMAIN g.calls} = Asked(x.t), g.calls)
Done == k = 1 /\ k' = 2 /\ c' = c /\ Emit(c)
TraceSpec == TraceInit /\ [][Look \/ Done]_<<c, k>>
=============================================================================
