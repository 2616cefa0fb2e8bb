-------------------------------- MODULE DataMC ------------------------------
(* Two symbols, every pair of sets of rows, every setting, and updates with     *)
(* every pair of sets of fetched rows.                                          *)
EXTENDS Data, Rep
CONSTANTS Rows0, Rows1, MaxUpd, ColSets
VARIABLES st, mi, mc, hist, last
vars == <<st, mi, mc, hist, last>>
Modes == {"nan", "drop", "raise"}
ColSeqs == {<<"series", <<1>>>>, <<"frame", <<1>>>>, <<"frame", <<1, 2>>>>, <<"frame", <<2, 1>>>>, <<"frame", <<2, 3>>>>, <<"series", <<2>>>>}
Tab(kc, S, sym, gen) == LET idx == Sorted(S) IN
    [kind |-> kc[1], cols |-> kc[2], idx |-> idx, rows |-> [i \in 1..Len(idx) |-> [j \in 1..Len(kc[2]) |-> sym * 10000 + gen * 1000 + idx[i] * 10 + kc[2][j]]]]
Sets(S) == SUBSET S \ {{}}
Kinds == IF ColSets = "one" THEN {<<<<"series", <<1>>>>, <<"series", <<1>>>>>>} ELSE {<<a, b>> : a \in ColSeqs, b \in ColSeqs}
Init == \E a \in Sets(Rows0), b \in Sets(Rows0), i \in Modes, c \in Modes, kc \in Kinds :
        /\ (ColSets = "one" => c = "nan")
        /\ (ColSets = "many" => Cardinality(a) = 2 /\ b = {0, 1})
        /\ LET raw == <<Tab(kc[1], a, 1, 0), Tab(kc[2], b, 2, 0)>>
               r == TLCEval(Align(raw, i, c))
           IN /\ st = r /\ mi = i /\ mc = c /\ last = [old |-> r, fetched |-> raw]
              /\ hist = <<[fetched |-> raw, ok |-> r.ok, after |-> r.data]>>
Next == /\ st.ok /\ Len(hist) <= MaxUpd /\ st.data[1].cols # <<>>
        /\ \E a \in Sets(Rows1), b \in Sets(Rows1), kc \in IF ColSets = "one" THEN Kinds ELSE {<<<<"frame", <<1, 2, 3>>>>, <<"frame", <<1, 2, 3>>>>>>, <<<<"series", <<1>>>>, <<"series", <<1>>>>>>, <<<<"frame", <<2, 1>>>>, <<"frame", <<3, 2>>>>>>} :
           /\ (ColSets = "many" => a = {1, 2} /\ b \in {{1, 2}, {2}})
           /\ (st.data[1].kind = "series" /\ kc[1][1] = "series" => st.data[1].cols = kc[1][2])
           /\ LET f == <<Tab(kc[1], a, 1, Len(hist)), Tab(kc[2], b, 2, Len(hist))>>
                  r == TLCEval(Updated(st.data, f, mi, mc))
              IN /\ st' = r /\ hist' = Append(hist, [fetched |-> f, ok |-> r.ok, after |-> r.data])
                 /\ last' = [old |-> st, fetched |-> f] /\ UNCHANGED <<mi, mc>>
                 /\ (Len(hist) = MaxUpd \/ ~r.ok => Emit([mi |-> mi, mc |-> mc, hist |-> hist']))
Spec == Init /\ [][Next]_vars
OneShape == st.ok => /\ st.data[1].idx = st.data[2].idx /\ st.data[1].cols = st.data[2].cols /\ st.data[1].kind = st.data[2].kind
                     /\ \A i \in 1..2 : Cardinality(Img(st.data[i].idx)) = Len(st.data[i].idx)
(* each cell is the symbol's own, at that label, and the newest known *)
OwnCells == st.ok => \A s \in 1..2 : \A r \in 1..Len(st.data[s].idx), j \in 1..Len(st.data[s].cols) :
    LET v == st.data[s].rows[r][j] IN v # Missing => v \div 10000 = s /\ v % 1000 = st.data[s].idx[r] * 10 + st.data[s].cols[j]
(* rows that were not fetched stay; with "nan" every fetched row is there *)
Stays == Len(hist) > 1 /\ st.ok => \A s \in 1..2 :
    LET o == last.old.data[s] n == st.data[s] f == last.fetched[s] IN
    /\ \A r \in 1..Len(o.idx) : o.idx[r] \in Img(n.idx) /\ (o.idx[r] \notin Img(f.idx) => n.rows[At(n.idx, o.idx[r])] = o.rows[r])
    /\ (mi = "nan" => Img(f.idx) \subseteq Img(n.idx) /\ \A l \in Img(f.idx), c \in Img(n.cols) : n.kind = f.kind => Cell(n, l, c) = Cell(f, l, c))
=============================================================================
