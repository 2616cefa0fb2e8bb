---------------------------- MODULE OrderExecMC ----------------------------
(* The account under every order of a finite catalogue, starting flat, long   *)
(* and short.  Every transition is emitted and replayed into the library.    *)
EXTENDS OrderExec, Rep, FiniteSets, TLC
CONSTANTS Depth, Sizes, STypes, Dirs, Profiles, Prices, Starts

VARIABLES acct, px, d
vars == <<acct, px, d>>

(* limit profiles: a name selects fees, fixed fees, slippage, min, max, granularity, lock, partial *)
P(fees, ffees, slip, minsz, maxsz, gran, lock, partial) ==
    [fees |-> fees, ffees |-> ffees, slip |-> slip, minsz |-> minsz, maxsz |-> maxsz, gran |-> gran,
     lock |-> lock, partial |-> partial]
Profile(n) == CASE n = "plain"    -> P("0", "0", "0", "0", "inf", "nan", FALSE, TRUE)
                [] n = "lock"     -> P("0", "0", "0", "0", "inf", "nan", TRUE, TRUE)
                [] n = "fees"     -> P("1/4", "1", "0", "0", "inf", "nan", FALSE, TRUE)
                [] n = "feeslock" -> P("1/4", "1", "0", "0", "inf", "nan", TRUE, TRUE)
                [] n = "slip"     -> P("0", "0", "1/4", "0", "inf", "nan", FALSE, TRUE)
                [] n = "sliplock" -> P("0", "1/2", "1/2", "0", "inf", "nan", TRUE, TRUE)
                [] n = "min"      -> P("0", "0", "0", "2", "inf", "nan", FALSE, TRUE)
                [] n = "max"      -> P("0", "0", "0", "0", "2", "nan", FALSE, TRUE)
                [] n = "maxall"   -> P("0", "0", "0", "0", "2", "nan", FALSE, FALSE)
                [] n = "all"      -> P("0", "1/2", "0", "0", "inf", "nan", FALSE, FALSE)
                [] n = "alllock"  -> P("0", "0", "0", "0", "inf", "nan", TRUE, FALSE)
                [] n = "gran"     -> P("0", "0", "0", "0", "inf", "2", FALSE, TRUE)
                [] n = "granfees" -> P("1/4", "1/2", "1/4", "0", "inf", "1/2", FALSE, TRUE)
                [] n = "granlock" -> P("0", "1", "0", "0", "inf", "1", TRUE, TRUE)
                [] n = "granall"  -> P("0", "0", "0", "0", "inf", "2", FALSE, FALSE)
                [] n = "minmax"   -> P("0", "0", "0", "2", "3", "1", TRUE, TRUE)
                [] n = "bigfix"   -> P("0", "16", "0", "0", "inf", "nan", FALSE, TRUE)
                [] n = "rebate"   -> P("-1/8", "0", "0", "0", "inf", "nan", FALSE, TRUE)
                [] n = "mixed"    -> P("1/8", "1/4", "1/8", "1/2", "4", "1/4", TRUE, TRUE)
Start(n) == CASE n = "flat"   -> [cash |-> "16", pos |-> "0", debt |-> "0", free |-> "16"]
              [] n = "long"   -> [cash |-> "4", pos |-> "3", debt |-> "0", free |-> "4"]
              [] n = "short"  -> [cash |-> "24", pos |-> "-2", debt |-> "8", free |-> "8"]
              [] n = "deep"   -> [cash |-> "32", pos |-> "-4", debt |-> "16", free |-> "0"]
              [] n = "over"   -> [cash |-> "12", pos |-> "-4", debt |-> "8", free |-> "-4"]
              [] n = "broke"  -> [cash |-> "0", pos |-> "2", debt |-> "0", free |-> "0"]
              [] n = "locked" -> [cash |-> "16", pos |-> "1", debt |-> "0", free |-> "2"]

OrderSet == {[size |-> s, stype |-> t, dir |-> dr, price |-> p, fees |-> Profile(n).fees, ffees |-> Profile(n).ffees,
              slip |-> Profile(n).slip, minsz |-> Profile(n).minsz, maxsz |-> Profile(n).maxsz,
              gran |-> Profile(n).gran, lock |-> Profile(n).lock, partial |-> Profile(n).partial, rp |-> "0"]
             : s \in Sizes, t \in STypes, dr \in Dirs, p \in Prices, n \in Profiles}

Full(a, p) == [cash |-> a.cash, pos |-> a.pos, debt |-> a.debt, free |-> a.free, vp |-> p,
               val |-> NAdd(a.cash, NMul(a.pos, p))]

Init == acct \in {Start(n) : n \in Starts} /\ px \in Prices /\ d = 0

Place(o) ==
    /\ d < Depth
    /\ LET st == Full(acct, px) outs == Outcomes(st, o, TRUE) IN
       /\ Assert(Cardinality(outs) = 1, <<"not deterministic", st, o, outs>>)
       /\ Emit(<<<<st.cash, st.pos, st.debt, st.free, st.vp, st.val>>, o, CHOOSE oc \in outs : TRUE>>)
       /\ \A oc \in outs : Assert(IsErr(oc) \/ Laws(st, o, oc), <<"law broken", st, o, oc>>)
       /\ \E oc \in outs : oc.s = "Filled" /\ acct' = [cash |-> oc.cash, pos |-> oc.pos, debt |-> oc.debt, free |-> oc.free]
    /\ d' = d + 1
    /\ px' = px
Reprice == d > 0 /\ d < Depth /\ px' \in Prices \ {px} /\ UNCHANGED <<acct, d>>
Next == (\E o \in OrderSet : Place(o)) \/ Reprice
Spec == Init /\ [][Next]_vars

CashNeverNegative == NGe(acct.cash, "0")
DebtIffShort == NGe(acct.debt, "0") /\ (NLt(acct.pos, "0") <=> NGt(acct.debt, "0"))
FreeNeverAboveCash == NLe(acct.free, acct.cash)
(* cash = free cash + twice the debt + what other columns lock, along every behaviour *)
FreeCashLaw == [][NEq(NSub(NSub(acct'.cash, acct'.free), NMul(2, acct'.debt)),
                      NSub(NSub(acct.cash, acct.free), NMul(2, acct.debt)))]_vars
=============================================================================
