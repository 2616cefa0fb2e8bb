------------------------------- MODULE Trades -------------------------------
(* Walking through the orders of a column: positions, entry trades and exit   *)
(* trades.  The state s is                                                    *)
(*   dir    "" (out), "Long" or "Short"                                       *)
(*   i0     bar at which the position was opened                              *)
(*   esz, eg, ef   size, gross value and fees of all entries                  *)
(*   xsz, xg, xf   the same of all exits                                      *)
(*   rsz, rg, rf   what of the entries is still held (running average)        *)
(*   ents   entries of the position: [size, i, price, fees]                   *)
(*   np     positions opened before the current one                           *)
(*   en, ex, ps    records written so far                                     *)
(* A record is [size, ei, ep, ef, xi, xp, xf, dir, open, parent].             *)
EXTENDS Num, FiniteSets, TLC
Out0(np) == [dir |-> "", i0 |-> 0, esz |-> "0", eg |-> "0", ef |-> "0", xsz |-> "0", xg |-> "0", xf |-> "0",
             rsz |-> "0", rg |-> "0", rf |-> "0", ents |-> <<>>, np |-> np, en |-> <<>>, ex |-> <<>>, ps |-> <<>>]
Side2Dir(side) == IF side = "Buy" THEN "Long" ELSE "Short"

Enter(s, o, dir, size, fees) ==
    [s EXCEPT !.dir = dir, !.i0 = IF s.dir = "" THEN o.i ELSE s.i0,
              !.esz = NAdd(s.esz, size), !.eg = NAdd(s.eg, NMul(size, o.price)), !.ef = NAdd(s.ef, fees),
              !.rsz = NAdd(s.rsz, size), !.rg = NAdd(s.rg, NMul(size, o.price)), !.rf = NAdd(s.rf, fees),
              !.ents = Append(s.ents, [size |-> size, i |-> o.i, price |-> o.price, fees |-> fees])]
(* sell (cover) `size` of the position at bar i for `fees` *)
Leave(s, i, price, size, fees, open) ==
    LET left == NSub(s.rsz, size)
        keep == NDiv(left, s.rsz)
        r == [size |-> size, ei |-> s.i0, ep |-> NDiv(s.rg, s.rsz), ef |-> NMul(NDiv(size, s.rsz), s.rf), xi |-> i, xp |-> price,
              xf |-> fees, dir |-> s.dir, open |-> open, parent |-> s.np]
    IN [s EXCEPT !.xsz = NAdd(s.xsz, size), !.xg = NAdd(s.xg, NMul(size, price)), !.xf = NAdd(s.xf, fees),
                 !.rsz = left, !.rg = NMul(keep, s.rg), !.rf = NMul(keep, s.rf), !.ex = Append(s.ex, r)]
(* the position ends at bar i: its entry trades and its own record *)
Finish(s, i, open) ==
    LET xp == NDiv(s.xg, s.xsz)
        e(k) == [size |-> s.ents[k].size, ei |-> s.ents[k].i, ep |-> s.ents[k].price, ef |-> s.ents[k].fees, xi |-> i, xp |-> xp,
                 xf |-> NMul(NDiv(s.ents[k].size, s.esz), s.xf), dir |-> s.dir, open |-> open, parent |-> s.np]
        p == [size |-> s.esz, ei |-> s.i0, ep |-> NDiv(s.eg, s.esz), ef |-> s.ef, xi |-> i, xp |-> xp, xf |-> s.xf,
              dir |-> s.dir, open |-> open, parent |-> s.np]
    IN [Out0(s.np + 1) EXCEPT !.en = s.en \o [k \in 1..Len(s.ents) |-> e(k)], !.ex = s.ex, !.ps = Append(s.ps, p)]
Step(s, o) ==
    LET d == Side2Dir(o.side) IN
    IF s.dir = "" \/ s.dir = d THEN Enter(s, o, d, o.size, o.fees)
    ELSE IF NNear(o.size, s.rsz, "1/1000000000", "1/1000000000000") THEN Finish(Leave(s, o.i, o.price, s.rsz, o.fees, FALSE), o.i, FALSE)
    ELSE IF NLt(o.size, s.rsz) THEN Leave(s, o.i, o.price, o.size, o.fees, FALSE)
    ELSE LET share == NMul(NDiv(s.rsz, o.size), o.fees)
             s1 == Finish(Leave(s, o.i, o.price, s.rsz, share, FALSE), o.i, FALSE)
         IN Enter(s1, o, d, NSub(o.size, s.rsz), NSub(o.fees, share))
(* after the last order: what is open is valued at the last close *)
Settle(s, t, close) == IF s.dir = "" THEN s ELSE Finish(Leave(s, t, close, s.rsz, "0", TRUE), t, TRUE)

RECURSIVE Walk(_, _)
Walk(s, os) == IF os = <<>> THEN s ELSE Walk(TLCEval(Step(s, os[1])), Tail(os))
Pnl(r) == LET d == NSub(NMul(r.size, r.xp), NMul(r.size, r.ep))
          IN NSub(NSub(IF r.dir = "Long" THEN d ELSE NNeg(d), r.ef), r.xf)
Return(r) == NDiv(Pnl(r), NMul(r.size, r.ep))
RECURSIVE SumOf(_, _)
SumOf(f, n) == IF n = 0 THEN "0" ELSE NAdd(f[n], SumOf(f, n - 1))
Total(rs, F(_)) == SumOf([k \in 1..Len(rs) |-> F(rs[k])], Len(rs))
(* ------------------------------------------------ what the walk guarantees *)
OfPosition(rs, p) == SelectSeq(rs, LAMBDA r : r.parent = p)
Conserved(s) ==
    \A q \in 1..Len(s.ps) :
        LET p == s.ps[q] IN
        \A rs \in {OfPosition(s.en, p.parent), OfPosition(s.ex, p.parent)} :
            /\ rs # <<>>
            /\ NEq(Total(rs, LAMBDA r : r.size), p.size)
            /\ NEq(Total(rs, LAMBDA r : r.ef), p.ef) /\ NEq(Total(rs, LAMBDA r : r.xf), p.xf)
            /\ NEq(Total(rs, LAMBDA r : Pnl(r)), Pnl(p))
            /\ \A k \in 1..Len(rs) : rs[k].dir = p.dir /\ rs[k].ei >= p.ei /\ rs[k].xi <= p.xi
Statuses(s) == \A k \in 1..Len(s.ps) : s.ps[k].open => k = Len(s.ps)
=============================================================================
