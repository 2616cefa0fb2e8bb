----------------------------- MODULE SplitsTrace ----------------------------
(* A case is a table and a list of split requests with the tables they gave.    *)
EXTENDS Splits, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
Tab == Cases[c].x
Max(S) == CHOOSE m \in S : \A q \in S : q <= m
(* set q of all splits, padded below to the longest *)
Want(w, q) == LET len == Max({w[i][q][2] - w[i][q][1] + 1 : i \in 1..Len(w)}) IN
    [p \in 1..(Len(w) * Len(Tab)) |-> LET i == (p - 1) \div Len(Tab) + 1 j == ((p - 1) % Len(Tab)) + 1 IN
        [r \in 1..len |-> IF w[i][q][1] + r - 1 > w[i][q][2] THEN "nan" ELSE Tab[j][w[i][q][1] + r]]]
Rows(w, q) == [i \in 1..Len(w) |-> w[i][q]]
TraceInit == c \in 1..Len(Cases) /\ k = 0
Event == /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
         /\ LET o == Cases[c].ops[k'] w == TLCEval(IF o.kind = "custom" THEN o.w ELSE Splits(o)) IN
            IF o.refused \/ w = <<>> THEN Ok(c, "refusal", o.refused /\ w = <<>>, [op |-> o, want |-> w])
            ELSE /\ Ok(c, "number of splits", o.sizes = <<Len(w), Len(w[1])>>, [op |-> o, want |-> w])
                 /\ o.sizes = <<Len(w), Len(w[1])>> => \A q \in 1..Len(w[1]) :
                      /\ Ok(c, "rows of a set", o.rows_of[q] = Rows(w, q), [op |-> o, set |-> q, want |-> Rows(w, q)])
                      /\ Ok(c, "table of a set", o.cells[q] = TLCEval(Want(w, q)), [op |-> o, set |-> q, want |-> w])
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ Emit(c) /\ UNCHANGED c
TraceNext == Event \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_<<c, k>>
=============================================================================
