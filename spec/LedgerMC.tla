------------------------------ MODULE LedgerMC ------------------------------
(* Two columns and two bars; every request is filled, ignored or rejected and *)
(* logged or not; the records must match the room there is for them.          *)
EXTENDS Ledger, Rep
CONSTANTS Kinds
Caps == {<<9, 9>>, <<2, 9>>, <<9, 2>>, <<3, 1>>}
VARIABLES mode, caps, prog, k, l
vars == <<mode, caps, prog, k, l>>
(* execution order of (bar, column) *)
Order == [byColumn |-> <<<<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>>>, byBar |-> <<<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>>>]
Init == /\ mode \in {"byColumn", "byBar"} /\ caps \in Caps /\ prog = <<>> /\ k = 0 /\ l = Empty
Process == /\ k < 4 /\ k' = k + 1
           /\ \E kind \in Kinds, log \in BOOLEAN :
                 /\ prog' = Append(prog, <<kind, log>>)
                 /\ l' = Write(l, [i |-> Order[mode][k'][1], col |-> Order[mode][k'][2], filled |-> kind = "fill", log |-> log], caps[1], caps[2])
           /\ UNCHANGED <<mode, caps>>
           /\ (k' = 4 => Emit(<<mode, caps, prog', l'>>))
Spec == Init /\ [][Process]_vars
Inv == Linked(l) /\ Numbered(l) /\ OneLogPerOrder(l)
Complete == ~l.full => Len(l.ords) = Len(SelectSeq(prog, LAMBDA p : p[1] = "fill")) /\ Len(l.logs) = Len(SelectSeq(prog, LAMBDA p : p[2]))
=============================================================================
