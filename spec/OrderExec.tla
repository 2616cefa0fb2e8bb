----------------------------- MODULE OrderExec -----------------------------
(* Execution of one order against an account.                                *)
(*                                                                           *)
(* An account st is [cash, pos, debt, free, vp, val]: cash, signed position,  *)
(* debt of the short position, free cash, valuation price, value of the      *)
(* column or group.  An order o is [size, price, stype, dir, fees, ffees,    *)
(* slip, minsz, maxsz, gran, lock, partial, rp].  Outcomes(st, o, ex) is the  *)
(* set of allowed outcomes                                                   *)
(*   [s |-> "Filled"|"Ignored"|"Rejected"|"Error", why, side, size, price,    *)
(*    fees, cash, pos, debt, free].                                           *)
(* It is a singleton, except where two quantities the library compares are   *)
(* so near to each other that rounding decides (ex = TRUE switches this      *)
(* slack off: all quantities are exactly representable), and except for      *)
(* orders that are rejected at random.                                       *)
EXTENDS Num

One == "1"
Tiny == "1/10000000000000000"
(* addition that snaps to zero, and comparisons with the library's tolerance *)
SnapAdd(a, b) == LET r == NAdd(a, b) IN
    IF (NSgn(a) # NSgn(b) /\ NClose(NAbs(a), NAbs(b))) \/ NClose(r, "0") THEN "0" ELSE r
LeTol(a, b) == NClose(a, b) \/ NLe(a, b)
LtTol(a, b) == ~NClose(a, b) /\ NLt(a, b)
(* the smaller of the two, ignoring an undefined b (an infinite share of nothing) *)
MinL(a, b) == IF NIsNaN(b) THEN a ELSE NMin(a, b)
MaxL(a) == IF NGt(a, "0") THEN a ELSE "0"
Snap(a) == IF NClose(a, "0") THEN "0" ELSE a

(* possible results of an exact comparison a > b made in floating point *)
GtOpts(a, b, ex) == IF ~ex /\ NNear(a, b, "1/100000000000", "1/1000000000000000") THEN {TRUE, FALSE} ELSE {NGt(a, b)}
(* possible results of rounding s down to a multiple of g *)
FloorOpts(s, g, ex) ==
    IF NIsNaN(g) THEN {s}
    ELSE LET q == NDiv(s, g) f == NFloor(q) IN
         {NMul(f, g)}
         \cup (IF ~ex /\ NNear(NAdd(f, One), q, "1/100000000000", "1/100000000000") THEN {NMul(NAdd(f, One), g)} ELSE {})
         \cup (IF ~ex /\ NNear(f, q, "1/100000000000", "1/100000000000") THEN {NMul(NSub(f, One), g)} ELSE {})

None(st, s, why) == {[s |-> s, why |-> why, side |-> "", size |-> "nan", price |-> "nan", fees |-> "nan",
                      cash |-> st.cash, pos |-> st.pos, debt |-> st.debt, free |-> st.free]}
Ignored(st, why) == None(st, "Ignored", why)
Rejected(st, why) == None(st, "Rejected", why)
Error(st, why) == None(st, "Error", why)

IsErr(oc) == oc.s = "Error"

---------------------------------------------------------------------------
(* Buying or covering. size > 0, possibly "inf"; pct is NaN or a fraction.   *)
CoverLimit(st, o, adj, ex) ==      \* cash that may be spent under lock_cash; a set of limits, "reject" when none
    IF NGe(st.pos, "0") THEN {st.free}
    ELSE LET req == NAdd(NMul(NMul(NAbs(st.pos), adj), NAdd(One, o.fees)), o.ffees)
             left == SnapAdd(NAdd(st.free, NMul(2, st.debt)), NNeg(req))
             avg == NDiv(st.debt, NAbs(st.pos))
             unit == NSub(NMul(adj, NAdd(One, o.fees)), NMul(2, avg))
         IN IF NGt(left, "0") THEN {NAdd(st.free, NMul(2, st.debt))}
            ELSE IF NEq(left, "0") THEN {st.cash}
            ELSE (IF NEq(unit, "0") THEN {"reject"}
                  ELSE {NAdd(NMul(NMul(NDiv(NSub(st.free, o.ffees), unit), adj), NAdd(One, o.fees)), o.ffees)})
                 \cup (IF ~ex /\ NNear(NAbs(NMul(adj, NAdd(One, o.fees))), NAbs(NMul(2, avg)), "1/10000000000", "1/10000000000")
                       THEN {"reject", st.cash} ELSE {})

BuyFill(st, o, size, adj, fees, req) ==
    LET pos2 == SnapAdd(st.pos, size)
        short == IF NLt(pos2, "0") THEN size ELSE NAbs(st.pos)
        dd == NMul(short, NDiv(st.debt, NAbs(st.pos)))
    IN {[s |-> "Filled", why |-> "", side |-> "Buy", size |-> size, price |-> adj, fees |-> fees,
         cash |-> SnapAdd(st.cash, NNeg(req)), pos |-> pos2,
         debt |-> IF NLt(st.pos, "0") THEN SnapAdd(st.debt, NNeg(dd)) ELSE st.debt,
         free |-> IF NLt(st.pos, "0") THEN SnapAdd(NAdd(st.free, NMul(2, dd)), NNeg(req))
                                      ELSE SnapAdd(st.free, NNeg(req))]}

BuySized(st, o, size, adj, want, final, fees, req) ==
    IF NClose(final, "0") THEN Ignored(st, "SizeZero")
    ELSE IF LtTol(final, o.minsz) THEN Rejected(st, "MinSizeNotReached")
    ELSE IF NIsFin(size) /\ LtTol(final, size) /\ ~o.partial THEN Rejected(st, "PartialFill")
    ELSE BuyFill(st, o, final, adj, fees, req)

BuyLimited(st, o, size, adj, limit, capped, ex) ==
    UNION {
      LET want == w
          val == NMul(want, adj)
          fee == NAdd(NMul(val, o.fees), o.ffees)
          tot == NAdd(val, fee)
          mreq == NDiv(SnapAdd(limit, NNeg(o.ffees)), NAdd(One, o.fees))
      IN IF LeTol(tot, limit) THEN BuySized(st, o, size, adj, want, want, fee, tot)
         ELSE IF NLe(mreq, "0") THEN Rejected(st, "CantCoverFees")
         ELSE UNION { LET v2 == NMul(f, adj)
                          fee2 == IF NIsNaN(o.gran) THEN NSub(limit, mreq) ELSE NAdd(NMul(v2, o.fees), o.ffees)
                          tot2 == IF NIsNaN(o.gran) THEN limit ELSE NAdd(v2, fee2)
                      IN BuySized(st, o, size, adj, want, f, fee2, tot2)
                    : f \in FloorOpts(NDiv(mreq, adj), o.gran, ex) }
      : w \in FloorOpts(capped, o.gran, ex) }

Buy(st, o, size, pct, ex) ==
    LET adj == NMul(o.price, NAdd(One, o.slip))
        lims == IF o.lock THEN CoverLimit(st, o, adj, ex) ELSE {st.cash}
        one(l0) ==
          LET l1 == NMin(l0, st.cash)
              limit == IF NIsNaN(pct) THEN l1 ELSE MinL(l1, NMul(pct, l1))
              asz == IF o.dir = "ShortOnly" THEN NMin(NNeg(st.pos), size) ELSE size
          IN IF o.dir # "ShortOnly" /\ NEq(limit, "0") THEN Rejected(st, "NoCashLong")
             ELSE IF o.dir # "ShortOnly" /\ NIsInf(size) /\ NIsInf(limit) THEN Error(st, "infinite long")
             ELSE IF o.dir = "ShortOnly" /\ NEq(st.pos, "0") THEN Rejected(st, "NoOpenPosition")
             ELSE IF NEq(asz, "0") THEN Ignored(st, "SizeZero")
             ELSE UNION { IF gt /\ ~o.partial THEN Rejected(st, "MaxSizeExceeded")
                          ELSE BuyLimited(st, o, size, adj, limit, IF gt THEN o.maxsz ELSE asz, ex)
                        : gt \in GtOpts(asz, o.maxsz, ex) }
    IN UNION { IF l0 = "reject" THEN Rejected(st, "CantCoverFees") ELSE one(l0) : l0 \in lims }

---------------------------------------------------------------------------
(* Selling or short selling. size >= 0, possibly "inf".                      *)
SellFill(st, o, size, adj, acq, fees, fin) ==
    LET pos2 == SnapAdd(st.pos, NNeg(size))
        short == IF NLt(st.pos, "0") THEN size ELSE NAbs(pos2)
        sv == NMul(short, adj)
    IN {[s |-> "Filled", why |-> "", side |-> "Sell", size |-> size, price |-> adj, fees |-> fees,
         cash |-> NAdd(st.cash, fin), pos |-> pos2,
         debt |-> IF NLt(pos2, "0") THEN NAdd(st.debt, sv) ELSE st.debt,
         free |-> IF NLt(pos2, "0") THEN SnapAdd(st.free, SnapAdd(fin, NNeg(NMul(2, sv)))) ELSE NAdd(st.free, fin)]}

SellSized(st, o, size, adj, lim) ==
    LET acq == NMul(lim, adj)
        fees == NAdd(NMul(acq, o.fees), o.ffees)
        fin == SnapAdd(acq, NNeg(fees))
    IN IF NClose(lim, "0") THEN Ignored(st, "SizeZero")
       ELSE IF LtTol(lim, o.minsz) THEN Rejected(st, "MinSizeNotReached")
       ELSE IF NIsFin(size) /\ LtTol(lim, size) /\ ~o.partial THEN Rejected(st, "PartialFill")
       ELSE IF NLt(fin, "0") THEN Rejected(st, "CantCoverFees")
       ELSE SellFill(st, o, lim, adj, acq, fees, fin)

SellCapped(st, o, size, adj, lim, ex) ==
    UNION { IF gt /\ ~o.partial THEN Rejected(st, "MaxSizeExceeded")
            ELSE LET l2 == IF gt THEN o.maxsz ELSE lim IN
                 IF o.dir # "LongOnly" /\ NIsInf(l2) THEN Error(st, "infinite short")
                 ELSE IF o.dir = "LongOnly" /\ NEq(st.pos, "0") THEN Rejected(st, "NoOpenPosition")
                 ELSE UNION { SellSized(st, o, size, adj, f) : f \in FloorOpts(l2, o.gran, ex) }
          : gt \in GtOpts(lim, o.maxsz, ex) }

Sell(st, o, size, pct, ex) ==
    LET adj == NMul(o.price, NSub(One, o.slip))
        long == NMax(st.pos, "0")
        tfree == SnapAdd(st.free, NMul(NMul(long, adj), NSub(One, o.fees)))
        mshort == NDiv(SnapAdd(tfree, NNeg(o.ffees)), NMul(adj, NAdd(One, o.fees)))
        mlim == IF NLe(tfree, "0") THEN long ELSE SnapAdd(long, mshort)
        pz(l) == IF NIsNaN(pct) THEN l ELSE NMul(pct, l)
    IN IF o.dir = "LongOnly" THEN SellCapped(st, o, size, adj, MinL(st.pos, pz(NMin(st.pos, size))), ex)
       ELSE IF ~o.lock /\ ~(NIsInf(size) /\ ~NIsNaN(pct)) THEN SellCapped(st, o, size, adj, pz(size), ex)
       ELSE IF NLe(tfree, "0") /\ NLe(st.pos, "0") THEN Rejected(st, "NoCashShort")
       ELSE IF NGt(tfree, "0") /\ NLe(mlim, "0") THEN Rejected(st, "CantCoverFees")
       ELSE IF o.lock
            THEN SellCapped(st, o, size, adj,
                   NMin(IF NIsInf(size) /\ ~NIsNaN(pct) THEN NMul(pct, mlim) ELSE pz(size), mlim), ex)
            ELSE SellCapped(st, o, size, adj, pz(mlim), ex)

---------------------------------------------------------------------------
InvalidWhy(st, o) ==
    IF NIsNaN(st.cash) \/ NLt(st.cash, "0") THEN "cash"
    ELSE IF ~NIsFin(st.pos) THEN "position"
    ELSE IF ~NIsFin(st.debt) \/ NLt(st.debt, "0") THEN "debt"
    ELSE IF NIsNaN(st.free) THEN "free"
    ELSE IF ~NIsFin(o.price) \/ NLe(o.price, "0") THEN "price"
    ELSE IF o.dir = "LongOnly" /\ NLt(st.pos, "0") THEN "long-only order on a short position"
    ELSE IF o.dir = "ShortOnly" /\ NGt(st.pos, "0") THEN "short-only order on a long position"
    ELSE IF ~NIsFin(o.fees) THEN "fees"
    ELSE IF ~NIsFin(o.ffees) THEN "fixed fees"
    ELSE IF ~NIsFin(o.slip) \/ NLt(o.slip, "0") THEN "slippage"
    ELSE IF ~NIsFin(o.minsz) \/ NLt(o.minsz, "0") THEN "min size"
    ELSE IF NIsNaN(o.maxsz) \/ NLe(o.maxsz, "0") THEN "max size"
    ELSE IF NIsInf(o.gran) \/ NLe(o.gran, "0") THEN "granularity"
    ELSE IF ~NIsFin(o.rp) \/ NLt(o.rp, "0") \/ NGt(o.rp, "1") THEN "reject probability"
    ELSE ""

(* the amount an order asks for: [k |-> "amt", v], [k |-> "pct", sgn, v] or a verdict *)
Resolve(st, o) ==
    LET s0 == IF o.dir = "ShortOnly" THEN NNeg(o.size) ELSE o.size
        val == Snap(st.val)
        vp == Snap(st.vp)
        isV == o.stype \in {"Value", "TargetValue", "TargetPercent"}
        s1 == IF o.stype = "TargetPercent" THEN NMul(s0, val) ELSE s0
        s2 == IF isV THEN NDiv(s1, vp) ELSE s1
        s3 == IF o.stype \in {"TargetAmount", "TargetValue", "TargetPercent"} THEN NSub(s2, st.pos) ELSE s2
    IN IF o.stype = "TargetPercent" /\ NIsNaN(val) THEN [k |-> "ign", why |-> "ValueNaN"]
       ELSE IF o.stype = "TargetPercent" /\ NLe(val, "0") THEN [k |-> "rej", why |-> "ValueZeroNeg"]
       ELSE IF isV /\ (NIsInf(vp) \/ NLe(vp, "0")) THEN [k |-> "err", why |-> "valuation price"]
       ELSE IF isV /\ NIsNaN(vp) THEN [k |-> "ign", why |-> "ValPriceNaN"]
       ELSE IF o.stype = "Percent" THEN [k |-> "pct", sgn |-> NSgn(s3), v |-> NAbs(s3)]
       ELSE IF o.dir # "LongOnly" /\ s3 = "-inf" THEN [k |-> "pct", sgn |-> 0 - 1, v |-> One]
       ELSE [k |-> "amt", v |-> s3]

BaseOutcomes(st0, o, ex) ==
    LET st == [st0 EXCEPT !.cash = Snap(@), !.pos = Snap(@), !.debt = Snap(@), !.free = Snap(@)]
        r == Resolve(st, o)
    IN IF NIsNaN(o.size) THEN Ignored(st, "SizeNaN")
       ELSE IF NIsNaN(o.price) THEN Ignored(st, "PriceNaN")
       ELSE IF InvalidWhy(st, o) # "" THEN Error(st, InvalidWhy(st, o))
       ELSE CASE r.k = "ign" -> Ignored(st, r.why)
              [] r.k = "rej" -> Rejected(st, r.why)
              [] r.k = "err" -> Error(st, r.why)
              [] r.k = "pct" -> IF r.sgn > 0 THEN Buy(st, o, "inf", r.v, ex)
                                ELSE IF r.sgn < 0 THEN Sell(st, o, "inf", r.v, ex)
                                ELSE Sell(st, o, "0", "0", ex)
              [] r.k = "amt" ->
                   UNION { IF NGt(v, "0") THEN Buy(st, o, v, "nan", ex) ELSE Sell(st, o, NNeg(v), "nan", ex)
                         : v \in {r.v} \cup (IF ~ex /\ o.stype \in {"TargetAmount", "TargetValue", "TargetPercent"}
                                               /\ NNear(NAdd(r.v, st.pos), st.pos, "1/10000000000", "1/10000000000")
                                            THEN {Tiny, NNeg(Tiny), "0"} ELSE {}) }

(* an order that passes the input checks may be rejected at random *)
Outcomes(st, o, ex) ==
    LET b == BaseOutcomes(st, o, ex)
        sn == [st EXCEPT !.cash = Snap(@), !.pos = Snap(@), !.debt = Snap(@), !.free = Snap(@)]
        random == {oc \in b : ~IsErr(oc) /\ oc.why \notin {"SizeNaN", "PriceNaN", "ValueNaN", "ValueZeroNeg", "ValPriceNaN"}} # {}
                  /\ NGt(o.rp, "0")
    IN IF ~random THEN b
       ELSE IF NEq(o.rp, "1") THEN Rejected(sn, "RandomEvent")
       ELSE b \cup Rejected(sn, "RandomEvent")

---------------------------------------------------------------------------
(* What the account must satisfy after an accepted order, stated on its own. *)
RT == "1/1000000000"
AT == "1/1000000000"
Eq(a, b) == NSame(a, b, RT, AT)
LeEq(a, b) == NLe(a, b) \/ Eq(a, b)
Laws(st, o, oc) ==
    IF oc.s # "Filled"
    THEN Eq(oc.cash, st.cash) /\ Eq(oc.pos, st.pos) /\ Eq(oc.debt, st.debt) /\ Eq(oc.free, st.free)
    ELSE LET sg == IF oc.side = "Buy" THEN One ELSE "-1"
         IN /\ NGt(oc.size, "0")
            /\ oc.why = ""
            /\ Eq(oc.pos, NAdd(st.pos, NMul(sg, oc.size)))
            /\ Eq(oc.cash, NSub(NSub(st.cash, NMul(sg, NMul(oc.size, oc.price))), oc.fees))
            /\ NGe(oc.cash, "0")
            /\ NGe(oc.debt, "0")
            /\ (NGe(oc.pos, "0") <=> NEq(oc.debt, "0"))
            (* cash is free cash plus twice the debt plus whatever other columns lock *)
            /\ Eq(NSub(NSub(oc.cash, oc.free), NMul(2, oc.debt)), NSub(NSub(st.cash, st.free), NMul(2, st.debt)))
            /\ Eq(oc.price, NMul(o.price, NAdd(One, NMul(sg, o.slip))))
            /\ Eq(oc.fees, NAdd(NMul(NMul(oc.size, oc.price), o.fees), o.ffees))
            /\ LeEq(oc.size, o.maxsz) /\ LeEq(o.minsz, oc.size)
            /\ (o.dir = "LongOnly" => NGe(oc.pos, "0"))
            /\ (o.dir = "ShortOnly" => NLe(oc.pos, "0"))
            /\ (~NIsNaN(o.gran) => LET q == NDiv(oc.size, o.gran) IN
                   NNear(q, NFloor(NAdd(q, "1/2")), "1/1000000000", "1/1000000000"))
            /\ (~o.partial /\ o.stype = "Amount" /\ NIsFin(o.size) => Eq(oc.size, NAbs(o.size)))
            (* locked cash: an order never takes free cash below zero, except to pay fees while
               closing; a long position's locked-in buy spends only free cash *)
            /\ (o.lock /\ oc.side = "Buy" /\ NGe(st.pos, "0") /\ NGe(st.free, "0") => LeEq("0", oc.free))
            /\ (o.lock /\ oc.side = "Sell" /\ NLe(st.pos, "0") /\ NIsNaN(o.gran) => LeEq("0", oc.free))
=============================================================================
