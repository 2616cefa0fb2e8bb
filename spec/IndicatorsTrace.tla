--------------------------- MODULE IndicatorsTrace --------------------------
(* A case is a table of bars per column and a list of runs with their outputs.  *)
EXTENDS Indicators, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
Tol == "1/10000000"
SameNum(a, b) == NSame(a, b, Tol, Tol)
TraceInit == c \in 1..Len(Cases) /\ k = 0
Event == /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
         /\ LET o == Cases[c].ops[k'] IN \A u \in 1..Len(Cases[c].x) : LET w == TLCEval(Ind(o, Cases[c].x[u])) IN
              \A q \in 1..Len(w) : Ok(c, o.op, Len(o.out[u][q]) = Len(w[q]) /\ \A i \in 1..Len(w[q]) : SameNum(o.out[u][q][i], w[q][i]),
                    [op |-> [f \in DOMAIN o \ {"out"} |-> o[f]], output |-> q, got |-> o.out[u][q], want |-> w[q], bars |-> Cases[c].x[u]])
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ Emit(c) /\ UNCHANGED c
TraceNext == Event \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_<<c, k>>
=============================================================================
