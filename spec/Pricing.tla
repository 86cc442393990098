------------------------------ MODULE Pricing -------------------------------
(***************************************************************************)
(* What every kind of instrument is worth, on markets drawn at random, as  *)
(* of dates from the valuation date to beyond expiry (P21).                *)
(***************************************************************************)
EXTENDS MarketTerms

VARIABLES w, n
vars == <<w, n>>
Mk == World.markets[w]
M == MarketOf(Mk)
Init == /\ w \in 1 .. Len(World.markets)
        /\ n = 1
Next == n < Len(Mk.insts) /\ n' = n + 1 /\ UNCHANGED w
Spec == Init /\ [][Next]_vars

Q == Mk.insts[n]
Value(d, t) == WorthOf(M, Mk.insts, n, d, t)

(* Of the specification: something is always said. *)
Answers == \A x \in Range(Mk.dates) : Value(x.d, x.t) # {}

(* A call less the put like it is what the underlying less the strike will  *)
(* be, discounted.                                                         *)
Twin == Q.kind \in {"spot", "fwd"} /\ ~ Q.put /\ Q.twin > 0
Parity(d, t) ==
  IF ~ Twin \/ ~ NotAfter(d, t, Q.ed, Q.et) \/ (Q.kind = "fwd" /\ M.date > Q.sd)
     \/ Mk.insts[Q.u].credit \notin DOMAIN M.rate THEN {}
  ELSE { [l |-> F.l \o S.l, v |-> Mul(Discount(M, Mk.insts[Q.u].credit, PayDate(Q), Settle(Q.lag, d)), Sub(F.v, S.v)), c |-> F.c \o S.c]
         : F \in WorthOf(M, Mk.insts, Q.u, Q.ed, Q.et), S \in Strikes(M, Mk.insts, Q) }

Emit == CSVWrite("%1$s", << ToJson([w |-> w, n |-> n,
   defs |-> IF Q.kind \in {"spot", "fwd", "basket"} THEN MarketDefs(Mk) ELSE <<>>,
   cond |-> IF n = 1 THEN MarketConditions(Mk) ELSE <<>>,
   cdefs |-> IF n = 1 THEN MarketDefs(Mk) ELSE <<>>,
   q |-> [a \in 1 .. Len(Mk.dates) |-> [d |-> Mk.dates[a].d, t |-> Mk.dates[a].t, r |-> Value(Mk.dates[a].d, Mk.dates[a].t),
                                        parity |-> Parity(Mk.dates[a].d, Mk.dates[a].t)]]]) >>, IOEnv.OUT)
=============================================================================
