------------------------------ MODULE SplitsMC ------------------------------
(* Every small request; the splits are yielded one by one.                      *)
EXTENDS Splits, Rep
CONSTANTS MaxRows
VARIABLES o, out, state
Cuts == {<<>>, <<"1">>, <<"2">>, <<"1", "1">>, <<"1/2">>, <<"1/4", "1/2">>, <<"3/4">>, <<"2", "1/4">>}
Lens(rows) == {""} \cup {NNum(l) : l \in 1..(rows + 1)} \cup {"1/2", "1/4", "7/8"}
Same(rows, cut) == [i \in 1..(rows + 1) |-> cut]
Starts(kind, rows, n) == {[kind |-> kind, rows |-> rows, n |-> n, len |-> IF kind = "expanding" THEN "" ELSE l, min |-> m, start |-> <<>>, end |-> <<>>, sets |-> Same(rows, cut), ltr |-> Same(rows, side)] :
        l \in (IF kind = "expanding" THEN {""} ELSE Lens(rows)), m \in {1, 3}, cut \in Cuts, side \in BOOLEAN}
Given(n) == {[kind |-> "given", rows |-> rows, n |-> n, len |-> "", min |-> m, start |-> <<a, b>>, end |-> <<a + p, b + q>>, sets |-> Same(2, cut), ltr |-> <<TRUE, FALSE, FALSE>>] :
        rows \in {5}, m \in 1..2, cut \in Cuts, a \in 0..1, b \in 0..2, p \in 0..3, q \in 1..2}
Fits(r) == CASE r.kind = "expanding" -> TRUE [] r.kind = "given" -> TRUE [] OTHER -> r.n + (IF r.len = "" THEN 0 ELSE 1) > 0
Init == o \in [kind : {"given"}, rows : {5}, n : 0..2] \cup [kind : {"rolling", "range", "expanding"}, rows : 1..MaxRows, n : 0..(MaxRows + 1)] /\ out = <<>> /\ state = "pick"
Choose == /\ state = "pick" /\ state' = "run" /\ out' = out
          /\ o' \in {r \in (IF o.kind = "given" THEN Given(o.n) ELSE Starts(o.kind, o.rows, o.n)) : Fits(r)}
Yield ==
        /\ state = "run"
        /\ LET r == TLCEval(Chosen(o)) i == Len(out) + 1 IN
           IF Refused(o) \/ ~Cuttable(r[i], o.sets[i])
           THEN out' = out /\ state' = "refused"
           ELSE out' = Append(out, SetsOf(o, i, r[i])) /\ state' = IF i = Len(r) THEN "done" ELSE "run"
        /\ o' = o
        /\ state' = "run" \/ Emit([o |-> o, out |-> IF state' = "done" THEN out' ELSE <<>>, refused |-> state' = "refused"])
Spec == Init /\ [][Choose \/ Yield]_<<o, out, state>>
First(s) == s[1][1]
Last(s) == s[Len(s)][2]
(* every set is a stretch of the index, next to the one before it               *)
Sound == \A i \in 1..Len(out) : /\ First(out[i]) >= 0 /\ Last(out[i]) < o.rows
                                /\ \A j \in 1..Len(out[i]) : out[i][j][1] <= out[i][j][2] /\ (j = 1 \/ out[i][j][1] = out[i][j - 1][2] + 1)
Forward == \A i \in 2..Len(out) : o.kind # "given" => (o.kind = "expanding" \/ First(out[i]) > First(out[i - 1])) /\ Last(out[i]) > Last(out[i - 1])
Grows == o.kind = "expanding" => \A i \in 1..Len(out) : First(out[i]) = 0
SameLen == o.kind \in {"rolling", "range"} => \A i \in 2..Len(out) : Last(out[i]) - First(out[i]) = Last(out[1]) - First(out[1])
Complete == state = "done" => /\ o.n = 0 \/ Len(out) = o.n
                              /\ o.kind \in {"rolling", "range"} /\ o.n # 1 => First(out[1]) = 0 /\ Last(out[Len(out)]) = o.rows - 1
(* a number of ranges alone: they do not overlap                                *)
Apart == state # "pick" /\ o.kind \in {"rolling", "range"} /\ o.len = "" => \A i \in 2..Len(out) : First(out[i]) > Last(out[i - 1])
AllAtOnce == state \in {"done", "refused"} => Splits(o) = IF state = "done" THEN out ELSE <<>>
=============================================================================
