----------------------------- MODULE MarketActs -----------------------------
(***************************************************************************)
(* What can be done to a market: data bumped or replaced, and the valuation *)
(* date moved.                                                             *)
(***************************************************************************)
EXTENDS MarketTerms

Names(mm, k) == CASE k = "spot" -> DOMAIN mm.spot [] k = "rate" -> DOMAIN mm.rate [] k = "borrow" -> DOMAIN mm.borrow
                  [] k = "div" -> DOMAIN mm.div [] k = "vol" -> DOMAIN mm.vol
Current(mm, k, id) == CASE k = "spot" -> mm.spot[id] [] k = "rate" -> mm.rate[id] [] k = "borrow" -> mm.borrow[id]
                        [] k = "div" -> mm.div[id] [] k = "vol" -> mm.vol[id]
Replace(mm, k, id, v) ==
  CASE k = "spot"   -> [mm EXCEPT !.spot[id] = v]
    [] k = "rate"   -> [mm EXCEPT !.rate[id] = v]
    [] k = "borrow" -> [mm EXCEPT !.borrow[id] = v]
    [] k = "div"    -> [mm EXCEPT !.div[id] = v]
    [] k = "vol"    -> [mm EXCEPT !.vol[id] = v]

Plus(n) == C(10000 + n, 10000)
Bumped(b, v) ==
  CASE b.k = "spot" -> IF b.o = "rel" THEN Mul(v, Plus(b.n)) ELSE Cents(b.n)
    [] b.k = "div"  -> [v EXCEPT !.bump = Mul(v.bump, Plus(b.n))]
    [] b.k \in {"rate", "borrow"} -> [v EXCEPT !.st = Append(v.st, <<b.o, b.n>>)]
    [] b.k = "vol"  -> [v EXCEPT !.st = Append(v.st, IF "d" \in DOMAIN b THEN [o |-> b.o, n |-> b.n, d |-> b.d, m |-> b.m]
                                                      ELSE [o |-> b.o, n |-> b.n, m |-> b.m])]
After(mm, b) == IF b.id \in Names(mm, b.k) THEN Replace(mm, b.k, b.id, Bumped(b, Current(mm, b.k, b.id))) ELSE mm

(* The equities an instrument is about. *)
RECURSIVE Reached(_, _)
Reached(L, n) == CASE L[n].kind = "equity" -> {n}
                   [] L[n].kind = "basket" -> UNION { Reached(L, a) : a \in Range(L[n].ms) }
                   [] L[n].kind \in {"spot", "fwd", "struck", "delivered", "watch"} -> Reached(L, L[n].u)
                   [] OTHER -> {}

(* The valuation date moves by n days: spots stay, or become what the       *)
(* forward was, for the equities the portfolio is about.                   *)
Moved(mm, L, about, n, o) ==
  [mm EXCEPT !.date = mm.date + n, !.spot = [a \in DOMAIN mm.spot |->
     IF o = "forward" /\ n # 0 /\ \E e \in about : L[e].id = a
     THEN ForwardOn(mm, L[CHOOSE e \in about : L[e].id = a], mm.date + n) ELSE mm.spot[a]]]
=============================================================================
