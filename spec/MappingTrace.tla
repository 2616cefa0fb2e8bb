---------------------------- MODULE MappingTrace ----------------------------
(* Recorded translations against Mapping.tla.                                  *)
EXTENDS Mapping, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
Rng(s) == {s[i] : i \in DOMAIN s}
TraceInit == c \in 1..Len(Cases) /\ k = 0
Look == /\ k = 0 /\ k' = 1 /\ c' = c
        /\ LET e == Cases[c] o == [e.o EXCEPT !.types = Rng(@)] w == TLCEval(Mapped(e.x, e.m, o)) g == e.got IN
           /\ Ok(c, "what was given stays as it was", e.kept, [x |-> e.x])
           /\ IF Fails(w) THEN Ok(c, "a value not found raises", g.err = "KeyError", [want |-> w, e |-> e])
              ELSE /\ Ok(c, "a value found does not raise", g.err = "", [want |-> w, e |-> e])
                   /\ g.err = "" =>
                      IF e.x.k \in {"set", "frozenset"}
                      THEN Ok(c, "values of a set", /\ \A j \in DOMAIN w[1] : \E i \in DOMAIN g.cols[1] : Alike(g.cols[1][i], w[1][j], e.x.cols[1].d[j], o)
                                                    /\ \A i \in DOMAIN g.cols[1] : \E j \in DOMAIN w[1] : Alike(g.cols[1][i], w[1][j], e.x.cols[1].d[j], o), [want |-> w, e |-> e])
                      ELSE /\ Ok(c, "as many values in the same kind of container", g.k = e.x.k /\ DOMAIN g.cols = DOMAIN w /\ g.labels
                                    /\ (DOMAIN g.cols = DOMAIN w => \A j \in DOMAIN w : DOMAIN g.cols[j] = DOMAIN w[j]), [want |-> w, e |-> e])
                           /\ DOMAIN g.cols = DOMAIN w => Ok(c, "each value is what the mapping says",
                                  \A j \in DOMAIN w : DOMAIN g.cols[j] = DOMAIN w[j] => \A i \in DOMAIN w[j] : Alike(g.cols[j][i], w[j][i], e.x.cols[j].d[i], o), [want |-> w, e |-> e])
Done == k = 1 /\ k' = 2 /\ c' = c /\ Emit(c)
TraceSpec == TraceInit /\ [][Look \/ Done]_<<c, k>>
=============================================================================
