------------------------------- MODULE BcTrace -------------------------------
(* Recorded calls of the real reshaping functions against Bc.tla.              *)
EXTENDS Bc, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
Fmt(r) == IF r.ok THEN r.res ELSE <<>>
Want(o) ==
    CASE o.op = "bcast" -> Fmt(TLCEval(Broadcast(o.args, o.o)))
      [] o.op = "to" -> Fmt(TLCEval(Broadcast(<<o.args[1]>>, o.o)))
      [] o.op = "stack" -> Stack(o.ixs, o.o)
      [] o.op = "combine" -> Combine(o.ixs, o.o)
      [] o.op = "align" -> AlignAll(o.ixs)
      [] o.op = "repeat" -> Lay(o.a, o.n, o.axis, RepSeq, RepIx)
      [] o.op = "tile" -> Lay(o.a, o.n, o.axis, TileSeq, TileIx)
      [] o.op = "unstack" -> Unstack(o.ix, o.v, o.il, o.cl)
      [] o.op = "symmetric" -> Symmetric(o.rl, o.cl, o.v)
      [] o.op = "flex" -> [x \in 1..(o.rows * o.cols) |-> Flex(o.v, o.nd, o.r, o.c, ((x - 1) \div o.cols) + 1, ((x - 1) % o.cols) + 1, o.flex2d)]
      [] o.op = "each" -> [x \in 1..(Len(o.p) * o.n) |-> o.p[((x - 1) \div o.n) + 1]]
Got(o) == IF o.op \in {"unstack", "symmetric"} THEN Rng(o.got) ELSE o.got
Clause(op) == CASE op = "bcast" -> "shape, elements and labels after broadcasting" [] op = "to" -> "broadcasting to the shape and labels of another object"
    [] op = "stack" -> "stacked levels" [] op = "combine" -> "combined indexes list every pair" [] op = "align" -> "aligned positions carry equal labels"
    [] op \in {"repeat", "tile"} -> "repeated and tiled cells keep their labels" [] op = "flex" -> "flexible indexing selects the broadcast element"
    [] op \in {"unstack", "symmetric"} -> "unstacked cells keep their labels" [] OTHER -> "parameters broadcast over an array"
TraceInit == c \in 1..Len(Cases) /\ k = 0
Event == /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
         /\ LET o == Cases[c].ops[k'] w == TLCEval(Want(o)) IN Ok(c, Clause(o.op), Got(o) = w, [op |-> o, want |-> w])
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c /\ Emit(c)
TraceNext == Event \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_<<c, k>>
=============================================================================
