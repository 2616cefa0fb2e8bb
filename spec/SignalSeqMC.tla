----------------------------- MODULE SignalSeqMC ----------------------------
(* All pairs of short arrays, with everything the library derives from them.    *)
EXTENDS SignalSeq, Rep
CONSTANT Lens
VARIABLES a, b, r
vars == <<a, b, r>>
Modes == <<"signal", "signal-gaps", "partition">>
Opt == <<FALSE, TRUE>>
All(x, y) ==
    [a |-> x, b |-> y, clean |-> [e \in 1..2 |-> Clean(x, y, Opt[e])],
     rank |-> [m \in 1..3 |-> [f \in 1..2 |-> [q \in 1..2 |-> Rank(x, IF q = 1 THEN NoReset(x) ELSE y, Modes[m], Opt[f])]]],
     between |-> Between(x), two |-> BetweenTwo(x, y, FALSE), other |-> BetweenTwo(x, y, TRUE), parts |-> Partitions(x), gaps |-> BetweenPartitions(x),
     nth |-> [n \in 1..(2 * Len(x) + 2) |-> NthIndex(x, n - Len(x) - 2)], avg |-> NormAvg(x)]
Init == \E n \in Lens : \E x \in [1..n -> BOOLEAN], y \in [1..n -> BOOLEAN] : a = x /\ b = y /\ r = TLCEval(All(x, y))
Next == UNCHANGED vars /\ Emit(r)
Spec == Init /\ [][Next]_vars
(* what is kept was there, never at once, and alternates; what is dropped could not be kept *)
Cleaned == \A e \in 1..2 : LET c == r.clean[e] kept(i) == c.en[i] \/ c.ex[i] IN
    \A i \in 1..Len(a) :
      /\ (c.en[i] => a[i]) /\ (c.ex[i] => b[i]) /\ ~(c.en[i] /\ c.ex[i]) /\ (a[i] /\ b[i] => ~kept(i))
      /\ LET P == {j \in 1..(i - 1) : kept(j)} IN
         /\ (c.en[i] /\ P # {} => c.ex[Largest(P)]) /\ (c.ex[i] /\ P # {} => c.en[Largest(P)])
         /\ (c.ex[i] /\ P = {} => ~Opt[e])
         /\ (a[i] /\ ~b[i] /\ ~c.en[i] => P # {} /\ c.en[Largest(P)])
         /\ (b[i] /\ ~a[i] /\ ~c.ex[i] => (P = {} /\ Opt[e]) \/ (P # {} /\ c.ex[Largest(P)]))
(* without resets a signal's rank is its distance from the start of its run; with gaps its number among all *)
Ranked == \A i \in 1..Len(a) : a[i] =>
    /\ r.rank[1][1][1][i] = i - 1 - Largest({j \in 0..(i - 1) : j = 0 \/ ~a[j]})
    /\ r.rank[2][1][1][i] = Cardinality({j \in 1..(i - 1) : a[j]})
    /\ r.rank[3][1][1][i] = Cardinality({j \in 1..i : a[j] /\ (j = 1 \/ ~a[j - 1])}) - 1
(* every signal lies in exactly one partition *)
Covered == \A i \in Bars(a) : Cardinality({p \in 1..Len(r.parts) : r.parts[p][1] <= i /\ (i < r.parts[p][2] \/ (r.parts[p][3] = 1 /\ i <= r.parts[p][2]))}) = IF Bar(a, i) THEN 1 ELSE 0
=============================================================================
