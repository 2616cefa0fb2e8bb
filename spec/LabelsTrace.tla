----------------------------- MODULE LabelsTrace ----------------------------
(* A case is a table of prices and a list of labellings with their outputs.     *)
EXTENDS Labels, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
Tol == "1/10000000"
SameNum(a, b) == NSame(a, b, Tol, Tol)
TraceInit == c \in 1..Len(Cases) /\ k = 0
Event == /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
         /\ LET o == Cases[c].ops[k'] IN \A u \in 1..Len(Cases[c].x) :
              LET x == Cases[c].x[u] w == TLCEval(Label(o, x, IF "pos" \in DOMAIN o THEN o.pos[u] ELSE <<>>, IF "neg" \in DOMAIN o THEN o.neg[u] ELSE <<>>)) IN
              Ok(c, o.op, Len(o.out[u]) = Len(w) /\ \A i \in 1..Len(w) : SameNum(o.out[u][i], w[i]),
                    [op |-> [f \in DOMAIN o \ {"out"} |-> o[f]], unit |-> u, got |-> o.out[u], want |-> w, x |-> x])
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ Emit(c) /\ UNCHANGED c
TraceNext == Event \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_<<c, k>>
=============================================================================
