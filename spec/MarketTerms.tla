---------------------------- MODULE MarketTerms -----------------------------
(***************************************************************************)
(* A market and what instruments are worth in it.                          *)
(*                                                                         *)
(* A market is [date, spot, rate, borrow, div, vol]: the valuation date,   *)
(* and by name the spot prices (terms), discount curves [cv, st] and       *)
(* borrow curves [cv, st] with their stacks of bumps, dividends [divs,     *)
(* yield, bump (term)] and vol surfaces [sf, st] with theirs.              *)
(*                                                                         *)
(* Instruments are listed; others refer to them by their place.            *)
(*   ccy, credit [id, lag]       equity [id, credit, lag]                   *)
(*     perhaps with dyn: "roll" if the volatilities of an equity roll with   *)
(*     the date, "delta" if its smiles follow its forward                   *)
(*   watch [id, credit, lag, u, ed]           the forward of u on day ed    *)
(*   zero [id, credit, lag, ed, et, pay]      ex after day ed, time et      *)
(*   basket [id, credit, lag, ws (hundredths), ms]                          *)
(*   spot [id, credit, lag, u, ed, et, k (cents), put, phys]               *)
(*   fwd [id, credit, lag, u, ed, et, frac (bp), sd, st, put, phys]         *)
(*   struck: a fwd whose strike (term) has been set                         *)
(*   gone; delivered: options past expiry, settled in cash or, if in the    *)
(*   money at s (term), in the underlying                                  *)
(* Times of day are 0 (open), 1 (settlement), 2 (close).                   *)
(*                                                                         *)
(* A price is a set of acceptable answers [l, v, c]: with the names of l   *)
(* bound to terms in turn, the value v, provided a <= b for all conditions *)
(* <<a, b>> in c, and otherwise an error.                                  *)
(***************************************************************************)
EXTENDS EquityTerms, VolTerms, BlackTerms

Instant(t) == IF t = 2 THEN 16 ELSE 0             \* twentieths of the day
NotAfter(d, t, e, u) == d < e \/ (d = e /\ t <= u)

MarketOf(w) == [date |-> w.date,
  spot   |-> [a \in DOMAIN w.spot   |-> Cents(w.spot[a])],
  rate   |-> [a \in DOMAIN w.rate   |-> [cv |-> w.rate[a], st |-> <<>>]],
  borrow |-> [a \in DOMAIN w.borrow |-> [cv |-> w.borrow[a], st |-> <<>>]],
  div    |-> [a \in DOMAIN w.div    |-> [divs |-> w.div[a].divs, yield |-> w.div[a].yield, bump |-> One]],
  vol    |-> [a \in DOMAIN w.vol    |-> [sf |-> w.vol[a], st |-> <<>>]]]

RECURSIVE JoinDefs(_, _)
JoinDefs(w, S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE x \in S : TRUE IN Definitions(w.vol[a]) \o JoinDefs(w, S \ {a})
MarketDefs(w) == JoinDefs(w, DOMAIN w.vol)
RECURSIVE JoinConds(_, _)
JoinConds(w, S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE x \in S : TRUE IN BuildConditions(w.vol[a]) \o JoinConds(w, S \ {a})
MarketConditions(w) == JoinConds(w, DOMAIN w.vol)

Surely(v) == { [l |-> <<>>, v |-> v, c |-> <<>>] }
Fails == { [l |-> <<>>, v |-> Zero, c |-> << <<One, Zero>> >>] }

----------------------------------------------------------------------------
(* Equities. *)
Knows(m, q) == q.id \in DOMAIN m.spot /\ q.id \in DOMAIN m.borrow /\ q.id \in DOMAIN m.div /\ q.credit \in DOMAIN m.rate
View(m, q) == [base |-> m.date, spot |-> m.spot[q.id], lag |-> q.lag,
               rate |-> m.rate[q.credit].cv, rst |-> m.rate[q.credit].st,
               borrow |-> m.borrow[q.id].cv, bst |-> m.borrow[q.id].st,
               divs |-> m.div[q.id].divs, yield |-> m.div[q.id].yield, yst |-> <<>>, dbump |-> m.div[q.id].bump]
ForwardOn(m, q, d) == ForwardSigned(View(m, q), d, -1)
Discount(m, credit, a, b) == DF(m.rate[credit].cv, m.rate[credit].st, a, b)

(* Surfaces are quoted for a base date; as time passes, vols stay with      *)
(* their expiry or roll, and they stay with strikes or follow the forward.  *)
Dyn(q) == IF "dyn" \in DOMAIN q THEN q.dyn ELSE "strike"
SurfaceStack(m, q) ==
  Append(m.vol[q.id].st, [o |-> IF Dyn(q) = "roll" THEN "re" ELSE "ce", n |-> m.date - m.vol[q.id].sf.base, m |-> 0])
  \o (IF Dyn(q) = "delta" THEN << [o |-> "sf", view |-> View(m, q)] >> ELSE <<>>)
VolOn(m, q, d, f, k) == VolAt(m.vol[q.id].sf, SurfaceStack(m, q), d, f, k)

----------------------------------------------------------------------------
RECURSIVE WorthOf(_, _, _, _, _)

(* Black-76 on the displaced forward and strike. A strike at or below the   *)
(* displacement is never reached from above.                                *)
OptionValue(put, df, f, k, vr) ==
  IF put THEN IfGe(Zero, k, Zero, IfGe(Zero, vr, PutIntrinsic(df, f, k), BlackPut(df, f, k, Sqrt(vr))))
  ELSE IfGe(Zero, k, Mul(df, Sub(f, k)), IfGe(Zero, vr, Intrinsic(df, f, k), BlackCall(df, f, k, Sqrt(vr))))

PayDate(q) == Settle(q.lag, q.ed)
(* what sets the strike: a price, or a fraction of the underlying's later   *)
Strikes(m, L, q) == IF q.kind = "spot" THEN Surely(Cents(q.k))
                    ELSE IF q.kind = "struck" THEN Surely(q.strike)
                    ELSE { [l |-> x.l, v |-> Mul(Bp(q.frac), x.v), c |-> x.c] : x \in WorthOf(m, L, q.u, q.sd, q.st) }
LOCAL From(q, d, t) ==
  LET f == Instant(t) IN
  IF q.kind = "fwd" /\ (q.sd > d \/ (q.sd = d /\ Instant(q.st) > f)) THEN <<q.sd, Instant(q.st)>> ELSE <<d, f>>

(* A strike to be set on the valuation date itself may be looked up on the  *)
(* forward curve, which needs more than the spot.                          *)
RECURSIVE Lacking(_, _, _)
Lacking(m, L, n) == CASE L[n].kind = "equity" -> ~ Knows(m, L[n])
                      [] L[n].kind = "basket" -> \E a \in Range(L[n].ms) : Lacking(m, L, a)
                      [] OTHER -> FALSE

Option(m, L, n, d, t) ==
  LET q == L[n] U == L[q.u] IN
  (IF q.kind = "fwd" /\ Lacking(m, L, q.u) THEN Fails ELSE {}) \cup
  IF ~ (U.credit \in DOMAIN m.rate /\ U.id \in DOMAIN m.vol) \/ (q.kind = "fwd" /\ m.date > q.sd) THEN Fails
  ELSE LET sf == m.vol[U.id].sf
           ops == SurfaceStack(m, U)
           disp == Displacement(sf, ops, q.ed)
           df == Discount(m, U.credit, PayDate(q), Settle(q.lag, d))
           from == From(q, d, t)
           name(x) == x \o ToString(n)
           fw == Ref(name("fw"))  kk == Ref(name("kk"))  vr == Ref(name("vr"))
           f == Sub(fw, disp[2])
           k == Sub(kk, disp[2])
           (* volatility matters to strikes that may be crossed *)
           matters(a, b) == << IfGe(Zero, k, Zero, a), IfGe(Zero, k, One, b) >>
       IN IF disp[1] = "err" THEN Fails
          ELSE IF ~ NotAfter(d, t, q.ed, q.et)
          THEN (* gone; what it would have been worth need not be known *)
               Surely(Zero) \cup { [l |-> F.l \o S.l, v |-> Zero, c |-> F.c \o S.c \o << <<disp[2], F.v>> >>] : F \in WorthOf(m, L, q.u, q.ed, q.et), S \in Strikes(m, L, q) }
                            \cup (IF m.date > q.ed THEN Fails ELSE {})
          ELSE { [l |-> x[1].l \o x[2].l \o << <<name("fw"), x[1].v>>, <<name("kk"), x[2].v>>, <<name("vr"), x[3].v>> >>,
                  v |-> OptionValue(q.put, df, f, k, vr),
                  c |-> x[1].c \o x[2].c \o << <<Zero, f>> >> \o [a \in 1 .. Len(x[3].c) |-> matters(x[3].c[a][1], x[3].c[a][2])]
                        \o << matters(Zero, vr) >>]
                 : x \in WorthOf(m, L, q.u, q.ed, q.et) \X Strikes(m, L, q)
                         \X ForwardVariance(sf, ops, from[1], from[2], q.ed, Instant(q.et), kk) }

RECURSIVE Weighted(_, _, _, _, _, _)
Weighted(m, L, q, a, d, t) ==
  IF a > Len(q.ms) THEN Surely(Zero)
  ELSE { [l |-> x[1].l \o x[2].l, v |-> Add(Mul(Cents(q.ws[a]), x[1].v), x[2].v), c |-> x[1].c \o x[2].c]
         : x \in WorthOf(m, L, q.ms[a], d, t) \X Weighted(m, L, q, a + 1, d, t) }

(* The worth of the n-th instrument of L as of day d, time of day t. *)
WorthOf(m, L, n, d, t) ==
  LET q == L[n] IN
  CASE q.kind \in {"ccy", "credit"} -> Surely(One)
    [] q.kind = "zero" -> IF q.credit \notin DOMAIN m.rate THEN Fails
                          ELSE Surely(IF NotAfter(d, t, q.ed, q.et) THEN Discount(m, q.credit, q.pay, Settle(q.lag, d)) ELSE Zero)
    [] q.kind = "equity" -> IF d = m.date /\ q.id \in DOMAIN m.spot THEN Surely(m.spot[q.id])
                            ELSE IF Knows(m, q) THEN Surely(ForwardOn(m, q, d)) ELSE Fails
    [] q.kind = "watch" -> IF Knows(m, L[q.u]) THEN Surely(ForwardOn(m, L[q.u], q.ed)) ELSE Fails
    [] q.kind = "basket" -> Weighted(m, L, q, 1, d, t)
    [] q.kind \in {"spot", "fwd", "struck"} -> Option(m, L, n, d, t)
    [] q.kind = "gone" -> Surely(Zero)
    [] q.kind = "delivered" -> { [l |-> x.l, v |-> IF q.put THEN IfGe(q.s, q.strike, Zero, Mul(K(-1), x.v)) ELSE IfGe(q.strike, q.s, Zero, x.v), c |-> x.c]
                                 : x \in WorthOf(m, L, q.u, d, t) }
=============================================================================
