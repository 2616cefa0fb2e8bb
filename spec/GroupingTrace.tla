---------------------------- MODULE GroupingTrace ---------------------------
(* Recorded histories of selections and regroupings of wrappers.                *)
EXTENDS Grouping, Rep, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k, w
vars == <<c, k, w>>
TraceInit == c \in 1..Len(Cases) /\ k = 0 /\ w = Cases[c].base
Event == /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
         /\ LET o == Cases[c].ops[k']
                v == TLCEval(CASE o.op = "rows" -> Rows(w, o.p)
                       [] o.op = "cols" -> Cols(w, o.p, o.scalar)
                       [] o.op = "both" -> Cols(Rows(w, o.r), o.p, o.scalar)
                       [] o.op = "groups" -> Groups(w, o.p, o.scalar)
                       [] o.op = "groupsrows" -> Groups(Rows(w, o.r), o.p, o.scalar)
                       [] o.op = "regroup" -> Regroup(w, o.p)
                       [] OTHER -> w)
            IN /\ w' = v
               /\ IF o.op = "level" THEN Ok(c, "groups from levels of the columns", o.codes = Codes(o.p) /\ o.names = Distinct(o.p), o)
                  ELSE IF o.op = "permit" THEN
                    Ok(c, "restrictions on grouping", /\ o.refused = Refused(o.h, o.p, o.allow) /\ o.enabled = (Change(o.h, o.p) = "enable") /\ o.disabled = (Change(o.h, o.p) = "disable")
                                                      /\ o.modified = (Change(o.h, o.p) \in {"enable", "disable", "modify"})
                                                      /\ (o.h # <<>> /\ o.p # <<>> => o.recount = (Len(Distinct(o.h)) # Len(Distinct(o.p)))), o)
                  ELSE IF o.op = "refused" THEN Ok(c, "incoherent groups are refused", Grouped(w) /\ ~Coherent(w.grp), o)
                  ELSE Ok(c, "rows, columns and groups after a selection", o.view = View(v), [op |-> o, want |-> View(v)])
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ Emit(c) /\ UNCHANGED <<c, w>>
TraceNext == Event \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
