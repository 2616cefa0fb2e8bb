----------------------------- MODULE CallbacksMC ----------------------------
(* Every schedule of user functions on small shapes: groupings, masks,        *)
(* group-wise and row-wise walks, fixed and flexible order functions.         *)
EXTENDS Callbacks, Rep, TLC
CONSTANTS T, Picks
VARIABLES pr, s, calls, picks
vars == <<pr, s, calls, picks>>
Groupings == {<<1>>, <<2>>, <<1, 1>>, <<2, 1>>}
RECURSIVE From(_, _)
From(gl, g) == IF g = 1 THEN 1 ELSE From(gl, g - 1) + gl[g - 1]
Masks(t, ng) == [1..t -> [1..ng -> BOOLEAN]]
Init == /\ \E gl \in Groupings : \E t \in 1..T : \E mk \in Masks(t, Len(gl)) : \E a, b, r, f \in BOOLEAN :
             pr = [t |-> t, groups |-> gl, from |-> [g \in 1..Len(gl) |-> From(gl, g)], to |-> [g \in 1..Len(gl) |-> From(gl, g) + gl[g] - 1],
                   mask |-> mk, callpre |-> a, callpost |-> b, row |-> r, flex |-> f]
        /\ s = Begin /\ calls = <<>>
        /\ picks = [i \in 1..pr.t |-> [g \in 1..Len(pr.groups) |-> <<>>]]
Where(x) == <<s.pc, IF s.pc \in {"preSim", "postSim", "preGroup", "postGroup"} THEN 0 ELSE s.i,
              IF s.pc \in {"preSim", "postSim", "preRow", "postRow"} THEN 0 ELSE s.g, x>>
Step(stop, x) == /\ s' = NextPos(pr, s, stop) /\ UNCHANGED pr
                 /\ calls' = IF Visible(pr, s) THEN Append(calls, Where(x)) ELSE calls
Now(col) == IF pr.flex THEN picks[s.i][s.g][s.k + 1] ELSE pr.from[s.g] + s.k
Next == /\ s.pc # "end"
        /\ IF s.pc = "order" /\ pr.flex
           THEN \/ Step(TRUE, 0) /\ UNCHANGED picks
                \/ /\ s.k < Picks
                   /\ \E x \in Cols(pr, s.g) : Step(FALSE, x) /\ picks' = [picks EXCEPT ![s.i][s.g] = Append(@, x)]
           ELSE /\ UNCHANGED picks
                /\ Step(FALSE, IF s.pc \in {"order", "postOrder"} THEN Now(0) ELSE 0)
        /\ s'.pc = "end" => Emit(<<pr @@ [picks |-> picks'], calls'>>)
Spec == Init /\ [][Next]_vars
Count(x) == Cardinality({j \in 1..Len(calls) : calls[j][1] = x})
(* openings and closings balance when the simulation is over; orders only in active segments *)
Nested == /\ s.pc = "end" => /\ Count("preSim") = 1 /\ Count("postSim") = 1
                             /\ Count("preGroup") = (IF pr.row THEN 0 ELSE Len(pr.groups)) /\ Count("postGroup") = Count("preGroup")
                             /\ Count("preRow") = (IF pr.row THEN pr.t ELSE 0) /\ Count("postRow") = Count("preRow")
                             /\ Count("order") = Count("postOrder") + (IF pr.flex THEN Cardinality({x \in (1..pr.t) \X (1..Len(pr.groups)) : pr.mask[x[1]][x[2]]}) ELSE 0)
          /\ \A j \in 1..Len(calls) : calls[j][1] \in {"order", "postOrder"} => pr.mask[calls[j][2]][calls[j][3]]
=============================================================================
