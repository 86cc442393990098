---------------------------- MODULE EquityTerms -----------------------------
(***************************************************************************)
(* Forwards of an equity that funds at a rate less borrow and pays         *)
(* dividends.  An equity view is a record                                  *)
(*   [base, spot (a term), lag (settlement, weekdays), rate, rst, borrow,   *)
(*    bst, divs, yield, yst, dbump (a term scaling all dividends)]          *)
(* where rate/borrow/yield are curves (CurveTerms) with their bump stacks   *)
(* rst/bst/yst, and divs is a list, in ex-date order, of                    *)
(* [cash (cents), rel (bp), ex, pay].                                       *)
(***************************************************************************)
EXTENDS CurveTerms, TLC

(* Settlement: slip forward off a weekend, then lag weekdays. lag < 0 means *)
(* no settlement delay at all.                                              *)
LOCAL SatSun(d) == (d + 3) % 7 >= 5
RECURSIVE NextWeekday(_)
NextWeekday(d) == IF SatSun(d) THEN NextWeekday(d + 1) ELSE d
RECURSIVE Weekdays(_, _)
Weekdays(d, n) == IF n = 0 THEN d ELSE Weekdays(NextWeekday(d + 1), n - 1)
Settle(lag, d) == IF lag < 0 THEN d ELSE Weekdays(NextWeekday(d), lag)

(* Discounting from the base date to d at the funding rate less borrow. *)
LOCAL LogG(e, d) == Sub(RT(e.borrow, e.bst, d), RT(e.rate, e.rst, d))
G(e, d) == IF d = e.base THEN One ELSE Exp(Sub(LogG(e, d), LogG(e, e.base)))

(* The spot discounted from its own settlement date to the base date. *)
RefSpot(e) == Mul(e.spot, G(e, Settle(e.lag, e.base)))

LOCAL Cash(e, v) == Mul(C(v.cash, 100), e.dbump)
LOCAL RelF(e, v) == Mul(Bp(v.rel), e.dbump)

(* Indices of the dividends that go ex after the base date and by d. *)
Included(e, d) == { k \in 1 .. Len(e.divs) : e.divs[k].ex > e.base /\ e.divs[k].ex <= d }
LOCAL Sname(k) == "S" \o ToString(k)
(* the sum over dividends that went ex strictly before dividend k *)
LOCAL Before(e, k) ==
  LET js == { j \in 1 .. k - 1 : e.divs[j].ex > e.base /\ e.divs[j].ex < e.divs[k].ex }
  IN IF js = {} THEN Zero ELSE Ref(Sname(CHOOSE j \in js : \A z \in js : z <= j))
(* what dividend k pays, undiscounted *)
LOCAL Amount(e, k) ==
  LET v == e.divs[k]
      rel == IF v.rel = 0 THEN Zero
             ELSE Mul(RelF(e, v), Div(Sub(Ref("F"), Before(e, k)), G(e, v.ex)))
  IN Add(Cash(e, v), rel)

(* body with F, S<k> and A<k> bound *)
RECURSIVE Chain(_, _, _, _)
Chain(e, ks, prev, body) ==
  IF ks = {} THEN body
  ELSE LET k == CHOOSE j \in ks : \A z \in ks : j <= z
       IN Let("A" \o ToString(k), Amount(e, k),
              Let(Sname(k), Add(prev, Mul(Ref("A" \o ToString(k)), G(e, e.divs[k].pay))),
                  Chain(e, ks \ {k}, Ref(Sname(k)), body)))
LOCAL Bound(e, d, body) == Let("F", RefSpot(e), Chain(e, Included(e, d), Zero, body))
LOCAL LastSum(e, d) == LET ks == Included(e, d)
                 IN IF ks = {} THEN Zero ELSE Ref(Sname(CHOOSE j \in ks : \A z \in ks : z <= j))

(* Present value of dividends going ex by d; sum of their amounts. *)
DivSum(e, d) == Bound(e, d, LastSum(e, d))
RECURSIVE SumSet(_)
SumSet(ks) == IF ks = {} THEN Zero
              ELSE LET k == CHOOSE j \in ks : TRUE IN Add(Ref("A" \o ToString(k)), SumSet(ks \ {k}))
DivAmounts(e, d) == Bound(e, d, SumSet(Included(e, d)))

(* Present value of the cash dividends that go ex after d. *)
RECURSIVE CashSum(_, _)
CashSum(e, ks) == IF ks = {} THEN Zero
                  ELSE LET k == CHOOSE j \in ks : TRUE
                       IN Add(Mul(Cash(e, e.divs[k]), G(e, e.divs[k].pay)), CashSum(e, ks \ {k}))
CashAfter(e, d) == CashSum(e, { k \in 1 .. Len(e.divs) : e.divs[k].ex > e.base /\ e.divs[k].ex > d })

(* A holder forgoes the dividend yield: it lowers the forward.  sign is -1; *)
(* see DESIGN.md for why +1 is also wanted.                                 *)
ForwardSigned(e, d, sign) ==
  LET p == Settle(e.lag, d)
      y == Mul(RT(e.yield, e.yst, p), e.dbump)
      grow == IF sign < 0 THEN Exp(Neg(y)) ELSE Exp(y)
  IN Bound(e, d, Mul(Div(Sub(Ref("F"), LastSum(e, d)), G(e, p)), grow))
=============================================================================
