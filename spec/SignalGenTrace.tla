---------------------------- MODULE SignalGenTrace --------------------------
(* Recorded runs of the generators, one column each.                            *)
EXTENDS SignalGen, Rep, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, k
vars == <<c, k>>
TraceInit == c \in 1..Len(Cases) /\ k = 0
First(a) == [kind |-> "first", a |-> a, first |-> TRUE]
Seen(a) == [kind |-> "observed", a |-> a, first |-> TRUE]
Price(o, ch, calls, i, what) ==
    LET S == {j \in 1..Len(calls) : i \in Range(calls[j][3])} IN Ohlc(ch, calls[Largest(S)][1], i)
PricesOk(o, ch, calls) == \A i \in Bars(o.price) : i \in ExitsOf(calls) =>
    LET p == Price(o, ch, calls, i, "") IN NSame(Bar(o.price, i), p.price, "1/1000000000000", "1/1000000000000") /\ Bar(o.type, i) = p.type
Event == /\ k < Len(Cases[c].ops) /\ k' = k + 1 /\ c' = c
         /\ LET o == Cases[c].ops[k'] n == o.n IN
            CASE o.op = "exits" ->
                   LET calls == TLCEval(Exits(o.o, Where(o.en), 1, -1, o.ch, n)) IN
                   /\ Ok(c, "exits follow entries", o.out = ToArray(ExitsOf(calls), n), [o |-> o, want |-> ToArray(ExitsOf(calls), n)])
                   /\ (o.ch.kind = "ohlc" /\ o.priced => Ok(c, "stop prices and types", PricesOk(o, o.ch, calls) /\ \A i \in Bars(o.price) : i \notin ExitsOf(calls) => Bar(o.price, i) = "nan" /\ Bar(o.type, i) = -1, [o |-> o, calls |-> calls]))
              [] o.op = "chain" ->
                   LET calls == TLCEval(Turns(o.o, 0, -1, o.ench, o.ch, n))
                       xs == [i \in 1..Len(calls) |-> IF calls[i][1] = 1 THEN <<calls[i][2], calls[i][3], calls[i][4]>> ELSE <<0, 0, <<>>>>]
                   IN /\ Ok(c, "entries and exits in turn", o.en = ToArray(SideOf(calls, 0), n) /\ o.ex = ToArray(SideOf(calls, 1), n), [o |-> o, want |-> calls])
                      /\ (o.ch.kind = "ohlc" /\ o.priced => Ok(c, "stop prices and types", PricesOk(o, o.ch, xs), [o |-> o, calls |-> calls]))
              [] o.op = "choose" -> Ok(c, "signals where a choice puts them", o.out = ToArray(Range(One(Where(o.a), o.first)), n), o)
              [] o.op = "count" -> Ok(c, "as many random signals as asked for", Len(Where(o.out)) = Least({o.count, n}), o)
              [] o.op = "prob" ->
                   Ok(c, "random signals respect probabilities",
                      IF o.first THEN Len(Where(o.out)) <= 1 /\ \A i \in Bars(o.out) : /\ (Bar(o.out, i) => NGt(Bar(o.prob, i), "0"))
                                                                                         /\ (NGe(Bar(o.prob, i), "1") => \E j \in 0..i : Bar(o.out, j))
                      ELSE \A i \in Bars(o.out) : (Bar(o.out, i) => NGt(Bar(o.prob, i), "0")) /\ (NGe(Bar(o.prob, i), "1") => Bar(o.out, i)), o)
              (* one random exit in every window; the probability says where *)
              [] o.op = "randex" ->
                   LET calls == TLCEval(Exits(o.o, Where(o.en), 1, -1, Seen(o.out), n))
                       all(cl) == o.must => cl[3] # <<>>
                       late(cl) == cl[3] = <<>> => \A i \in cl[1]..(cl[2] - 1) : NLt(Bar(o.prob, i), "1")
                       fits(cl) == cl[3] # <<>> => NGt(Bar(o.prob, cl[3][1]), "0") /\ \A i \in cl[1]..(cl[3][1] - 1) : NLt(Bar(o.prob, i), "1")
                       over == ~o.o.until /\ ~o.o.skip
                   IN Ok(c, "one random exit for an entry",
                         /\ \A i \in 1..Len(calls) : all(calls[i]) /\ (~over => late(calls[i]) /\ fits(calls[i]))
                         /\ (~over => o.out = ToArray(ExitsOf(calls), n))
                         /\ (over => Len(Where(o.out)) <= Len(calls) /\ \A x \in Range(Where(o.out)) : \E i \in 1..Len(calls) : x >= calls[i][1] /\ x < calls[i][2]), [o |-> o, calls |-> calls])
              [] o.op = "both" ->
                   LET e == Where(o.en) x == Where(o.ex) IN
                   Ok(c, "as many random entries and exits as asked for, in turn",
                      /\ Len(e) = o.count /\ Len(x) = o.count
                      /\ \A i \in 1..o.count : x[i] >= e[i] + o.xwait /\ (i > 1 => e[i] >= x[i - 1] + o.ewait), o)
              [] o.op = "custom" ->
                   LET K == Len(o.combos) W == Len(o.en)
                       calls == TLCEval([q \in 1..(K * W) |-> CallsOf(o, (q - 1) \div W + 1, ((q - 1) % W) + 1)])
                       asked(q) == LET cs == SelectSeq(calls[q], LAMBDA cl : ~(o.plain /\ cl[1] = 0)) IN
                           [i \in 1..Len(cs) |-> <<cs[i][1], cs[i][2], cs[i][3], (q - 1) % W, Told(o, cs[i][1], (q - 1) \div W + 1)>>]
                   IN /\ LET want == TLCEval(Flat([q \in 1..(K * W) |-> asked(q)])) IN Ok(c, "what the functions of a generator are given", o.asked = want, [o |-> o, want |-> want])
                      /\ Ok(c, "what the cache function of a generator is given", o.cf.told = <<>> \/ o.cf.told = <<ToldCache(o)>>, [o |-> o, want |-> ToldCache(o)])
                      /\ Ok(c, "signals of a generator",
                            \A q \in 1..(K * W) : (o.mode # "exits" => o.a[q] = ToArray(SideOf(calls[q], 0), o.n))
                                                    /\ (o.mode # "entries" => o.b[q] = ToArray(SideOf(calls[q], 1), o.n)), [o |-> o, calls |-> calls])
                      /\ Ok(c, "in-place outputs of a generator",
                            \A q \in 1..(K * W), j \in 1..Len(o.onames), i \in 1..o.n :
                                o.outs[j][q][i] = Written(o, calls[q], j, (q - 1) \div W + 1, ((q - 1) % W) + 1, i - 1, 0 - j), [o |-> o, calls |-> calls])
Done == k = Len(Cases[c].ops) /\ k' = k + 1 /\ Emit(c) /\ UNCHANGED c
TraceNext == Event \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
