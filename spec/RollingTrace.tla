----------------------------- MODULE RollingTrace ---------------------------
(* A case is a table and a list of operations on it with their results.         *)
EXTENDS Rolling, Grouping, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
TolR == "1/100000000"
Tab == Cases[c].x
SameNum(a, b) == NSame(a, b, TolR, TolR)
SameSeq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameNum(a[i], b[i])
(* a spread of one known value: zero by rounding, instead of none               *)
Rounded(o, u, w) == /\ o.op = "ewm" /\ o.f = "var" /\ Len(o.out[u]) = Len(w)
                    /\ \A i \in 1..Len(w) : SameNum(o.out[u][i], w[i]) \/ (SameNum(o.out[u][i], "0") /\ Len(Known(SubSeq(Tab[u], 1, i))) = 1)
N0 == Cases[c].n
Units(g) == IF g = <<>> THEN [u \in 1..Len(Tab) |-> <<u>>] ELSE LET d == Distinct(g) IN [u \in 1..Len(d) |-> LET m == Members(g, d[u]) IN [i \in 1..Len(m) |-> m[i] + 1]]
RowsOf(u, rows) == Joined([r \in 1..Len(rows) |-> [j \in 1..Len(u) |-> Tab[u[j]][rows[r]]]])
ColsOf(u) == Joined([j \in 1..Len(u) |-> Tab[u[j]]])
AllRows == [i \in 1..N0 |-> i]
Freq(vs, v) == Cardinality({i \in 1..Len(vs) : (NIsNaN(v) /\ NIsNaN(vs[i])) \/ NEq(vs[i], v)})
Want(o) ==
    CASE o.op = "reduce" -> [u \in 1..Len(Units(o.grp)) |-> Reduce(o, RowsOf(Units(o.grp)[u], AllRows), Len(Units(o.grp)[u]))]
      [] o.op = "squeeze" -> [u \in 1..Len(Units(o.grp)) |-> [i \in 1..N0 |-> Stat(o.f, Known(RowsOf(Units(o.grp)[u], <<i>>)), o)]]
      [] o.op = "flatten" -> [u \in 1..Len(Units(o.grp)) |-> LET q == Units(o.grp)[u] m == Fold([i \in 1..Len(Units(o.grp)) |-> NNum(Len(Units(o.grp)[i]))], TRUE) IN
              [p \in 1..(N0 * NInt(m)) |-> LET r == IF o.rows THEN (p - 1) \div NInt(m) ELSE (p - 1) % N0 j == IF o.rows THEN (p - 1) % NInt(m) ELSE (p - 1) \div N0 IN
                    IF j < Len(q) THEN Tab[q[j + 1]][r + 1] ELSE "nan"]]
      [] o.op = "counts" -> [u \in 1..Len(Units(o.grp)) |-> [v \in 1..Len(o.values) |-> NNum(Freq(ColsOf(Units(o.grp)[u]), o.values[v]))]]
      [] o.op = "groupby" -> [u \in 1..Len(Tab) |-> [g \in 1..Len(o.keys) |-> Stat(o.f, Known(RowsOf(<<u>>, SelectSeq(AllRows, LAMBDA i : o.by[i] = o.keys[g]))), o)]]
      [] o.op = "groupall" -> [u \in 1..Len(Tab) |-> [g \in 1..Len(o.keys) |-> Stat(o.f, Known(RowsOf([j \in 1..Len(Tab) |-> j], SelectSeq(AllRows, LAMBDA i : o.by[i] = o.keys[g]))), o)]]
      [] o.op = "matrix" -> [u \in 1..Len(Tab) |-> [i \in 1..N0 |-> IF (IF i < o.w THEN i ELSE o.w) < o.m THEN "nan" ELSE
              Stat(o.f, RowsOf([j \in 1..Len(Tab) |-> j], SelectSeq(AllRows, LAMBDA r : r <= i /\ r > i - o.w)), o)]]
      [] o.op = "rank" -> [u \in 1..Len(Tab) |-> [i \in 1..N0 |-> NNum(Cardinality({j \in 1..Len(Tab) : NLt(Tab[j][i], Tab[u][i])}))]]
      [] OTHER -> [u \in 1..Len(Tab) |-> Series(o, Tab[u], IF o.op \in {"above", "below"} THEN o.y[u] ELSE <<>>)]
TraceInit == c \in 1..Len(Cases) /\ k = 0
Event == /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
         /\ LET o == Cases[c].ops[k'] IN
            IF o.op = "shuffle"
            THEN \A u \in 1..Len(Tab) : Ok(c, "a shuffle keeps the values of each column", \A i \in 1..N0 : Freq(Tab[u], Tab[u][i]) = Freq(o.out[u], Tab[u][i]), [op |-> o.op, x |-> Tab[u], got |-> o.out[u]])
            ELSE LET w == TLCEval(Want(o)) IN
              /\ Ok(c, "units of " \o o.op, Len(o.out) = Len(w), [op |-> o])
              /\ \A u \in 1..Len(w) : Len(o.out) # Len(w) \/ Ok(c, o.op \o " " \o (IF "f" \in DOMAIN o THEN o.f ELSE ""), SameSeq(o.out[u], w[u]) \/ Rounded(o, u, w[u]), [op |-> [f \in DOMAIN o \ {"out"} |-> o[f]], got |-> o.out[u], want |-> w[u], unit |-> u, tab |-> Tab])
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ Emit(c) /\ UNCHANGED c
TraceNext == Event \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_<<c, k>>
=============================================================================
