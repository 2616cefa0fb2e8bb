------------------------------ MODULE ConfTrace -----------------------------
(* Recorded programs over configurations: after every operation the heap seen  *)
(* is the heap of the specification, up to the naming of nodes.                *)
EXTENDS Conf, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k, st
vars == <<c, k, st>>
TraceInit == c \in 1..Len(Cases) /\ k = 0 /\ st = [h |-> <<Node("dict", <<>>)>>, roots |-> <<1>>, err |-> ""]
OpStep == /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
          /\ LET o == Cases[c].ops[k'] out == Cases[c].outs[k'] s == TLCEval(Step(st, o)) cc == TLCEval(Canon(s.h, s.roots)) same == cc = out.c IN
             /\ Ok(c, o.op \o " is accepted or refused as the model says", s.err = out.err, [o |-> o, want |-> s.err, got |-> out.err])
             /\ Ok(c, o.op \o " leaves the contents the model says", same \/ s.err # out.err, [o |-> o, want |-> cc, got |-> out.c])
             /\ Ok(c, "attributes are the items", out.attrs, [o |-> o])
             (* equality is equality of contents: the kinds, keys and values below, whatever the order, flags and copies *)
             /\ (same /\ out.alike # <<>>) =>
                   LET n == DOMAIN s.roots
                       cfg(x) == s.roots[x] > 0 /\ s.h[s.roots[x]].k = "config"
                       wa == TLCEval([x \in n |-> [y \in n |-> Alike(s.h, s.roots[x], s.roots[y])]])
                       we == TLCEval([x \in n |-> [y \in n |-> cfg(x) /\ AlikeItems(s.h, s.roots[x], s.roots[y])]])
                   IN  /\ Ok(c, "deep equality", out.alike = wa, [o |-> o, want |-> wa, got |-> out.alike, heap |-> out.c])
                       /\ Ok(c, "equality of configurations", out.equal = we, [o |-> o, want |-> we, got |-> out.equal, heap |-> out.c])
             (* go on from what was seen *)
             /\ st' = IF same THEN s ELSE
                  TLCEval([h |-> [j \in 1..Len(out.c.heap) |-> [k |-> out.c.heap[j].k, items |-> out.c.heap[j].items, reset |-> out.c.heap[j].reset,
                             f |-> IF out.c.heap[j].k = "config" THEN out.c.heap[j].f ELSE NoFlags]], roots |-> out.c.roots, err |-> out.err])
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ Emit(c) /\ UNCHANGED <<c, st>>
TraceNext == OpStep \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
