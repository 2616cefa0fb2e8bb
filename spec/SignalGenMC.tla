----------------------------- MODULE SignalGenMC ----------------------------
(* Generation with a chooser that may return anything: every short run with     *)
(* its calls, the bars returned, and the signals or the refusal that follow.    *)
EXTENDS SignalGen, Rep
CONSTANTS What, N, MaxLen
VARIABLES o, ws, k, last, prev, calls, err, done
vars == <<o, ws, k, last, prev, calls, err, done>>
BOOLS == {TRUE, FALSE}
Opts == IF What = "exits" THEN {q \in [wait : {0, 1, 2}, until : BOOLS, skip : BOOLS, first : BOOLS] : ~(q.until /\ q.skip)}
        ELSE {q \in [ewait : {0, 1, 2}, xwait : {0, 1, 2}, efirst : BOOLS, xfirst : BOOLS] : q.ewait + q.xwait > 0}
Entries == IF What = "exits" THEN {SelectSeq(Upto(0, N), LAMBDA i : i \in S) : S \in SUBSET (0..(N - 1))} ELSE {<<>>}
(* what a chooser may return for a window *)
Returns(lo, hi) == {<<>>} \cup {<<i>> : i \in (lo - 1)..hi} \cup {<<p[1], p[2]>> : p \in {q \in ((lo..hi) \X (lo..hi)) : q[1] < q[2] /\ MaxLen > 1}}
Init == o \in Opts /\ ws \in Entries /\ k = (IF What = "exits" THEN 1 ELSE 0) /\ last = -1 /\ prev = -1 /\ calls = <<>> /\ err = FALSE /\ done = FALSE
Stop == done' = TRUE /\ UNCHANGED <<o, ws, k, last, prev, calls, err>>
Exit == What = "exits" /\
    IF k > Len(ws) \/ err THEN Stop
    ELSE LET lo == ExFrom(ws, k, o.wait) hi == ExTo(ws, k, o.until, N) IN
         IF (o.skip /\ ws[k] <= last) \/ hi <= lo THEN k' = k + 1 /\ UNCHANGED <<o, ws, last, prev, calls, err, done>>
         ELSE \E r \in Returns(lo, hi) : LET p == Placed(r, o.first, lo, hi) IN
              /\ calls' = Append(calls, <<0, lo, hi, r, p.s>>) /\ err' = p.err /\ k' = k + 1
              /\ last' = IF p.s = <<>> THEN last ELSE p.s[Len(p.s)]
              /\ UNCHANGED <<o, ws, prev, done>>
Turn == What = "turns" /\
    LET side == k % 2 lo == IF k = 0 THEN 0 ELSE prev + (IF side = 0 THEN o.ewait ELSE o.xwait) IN
    IF lo >= N \/ err \/ k < 0 THEN Stop
    ELSE \E r \in Returns(lo, N) : LET p == Placed(r, IF side = 0 THEN o.efirst ELSE o.xfirst, lo, N) IN
         /\ calls' = Append(calls, <<side, lo, N, r, p.s>>) /\ err' = p.err
         /\ k' = IF p.s = <<>> THEN -1 ELSE k + 1
         /\ prev' = IF p.s = <<>> THEN prev ELSE p.s[Len(p.s)]
         /\ UNCHANGED <<o, ws, last, done>>
Set(side) == UNION {Range(calls[i][5]) : i \in {j \in 1..Len(calls) : calls[j][1] = side}}
Next == ~done /\ (Exit \/ Turn) /\ (done' => Emit([o |-> o, ws |-> ws, calls |-> calls, err |-> err, a |-> ToArray(Set(0), N), b |-> ToArray(Set(1), N)]))
Spec == Init /\ [][Next]_vars
(* with one signal at a time the two sides alternate, each at least its wait after the other *)
Alternate == What = "turns" /\ o.efirst /\ o.xfirst /\ ~err =>
    LET S == {i \in 1..Len(calls) : calls[i][5] # <<>>} IN
    \A i \in S : calls[i][1] = (i - 1) % 2 /\ (i > 1 => calls[i][5][1] >= calls[i - 1][5][1] + (IF calls[i][1] = 0 THEN o.ewait ELSE o.xwait))
(* exits lie between an entry, after the wait, and the next one *)
Between2 == What = "exits" /\ ~err => \A x \in Set(0) : \E i \in 1..Len(ws) : x >= ws[i] + o.wait /\ (o.until /\ i < Len(ws) => x < ws[i + 1])
NoOverlap == What = "exits" /\ o.skip /\ ~err => \A i \in 1..(Len(calls) - 1) : calls[i][5] # <<>> => \A j \in (i + 1)..Len(calls) : calls[j][2] > calls[i][5][Len(calls[i][5])] \/ o.wait = 0
=============================================================================
