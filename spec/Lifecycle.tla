----------------------------- MODULE Lifecycle ------------------------------
(***************************************************************************)
(* What holdings become as fixings are learnt (P06).                       *)
(*                                                                         *)
(* Instruments are listed as in MarketTerms. A holding is [x, q]: a        *)
(* quantity (the product of the terms in x) of                             *)
(*   [k = "as", n]             instrument n as it was made                 *)
(*   [k = "struck", n, f]      forward-starting option n, its strike set   *)
(*                             as its fraction of the fixing f (cents)     *)
(*   [k = "pay", n]            one unit of currency paid by option n       *)
(*   [k = "basket", n, ms, c]  basket n, fixed c times, now holding ms      *)
(* World.cases[w]: insts, book [n, x (hundredths)], fixes [id, d, t, v      *)
(* (cents)], stages [u, t]: fixings are known until day u, and on day u     *)
(* itself up to time t (less than zero: none).                             *)
(***************************************************************************)
EXTENDS Terms, Integers, Sequences, FiniteSets, Json, CSV, IOUtils, TLC

CONSTANT MaxActs
VARIABLES w, book, at, err, hist
vars == <<w, book, at, err, hist>>
World == JsonDeserialize(IOEnv.WORLD)
Case == World.cases[w]
L == Case.insts
Start == [a \in 1 .. Len(Case.book) |-> [x |-> << C(Case.book[a].x, 100) >>, q |-> [k |-> "as", n |-> Case.book[a].n]]]

(* the fixing table of a stage: 0 is when nothing is known *)
Stage(i) == IF i = 0 THEN [u |-> 0, t |-> -1] ELSE Case.stages[i]
KnownAt(i) == { a \in 1 .. Len(Case.fixes) : LET x == Case.fixes[a] s == Stage(i) IN x.d < s.u \/ (x.d = s.u /\ x.t <= s.t) }
(* a fixing: >= 0 known, -1 not yet, -2 should be known but is not *)
Look(i, id, d, t) ==
  LET S == { a \in KnownAt(i) : Case.fixes[a].id = id /\ Case.fixes[a].d = d /\ Case.fixes[a].t = t }
  IN IF S # {} THEN Case.fixes[CHOOSE a \in S : TRUE].v ELSE IF d < Stage(i).u THEN -2 ELSE -1

----------------------------------------------------------------------------
(* Outcomes: [o = "same"], [o = "error"] or [o = "new", h = holdings], with  *)
(* edge set if rounding may decide whether an option is worth exercising.   *)
Cents(n) == C(n, 100)
Same == [o |-> "same", h |-> <<>>, edge |-> FALSE]
Error == [o |-> "error", h |-> <<>>, edge |-> FALSE]
New(h, edge) == [o |-> "new", h |-> h, edge |-> edge]

Scale(x, h) == [a \in 1 .. Len(h) |-> [h[a] EXCEPT !.x = x \o @]]
RECURSIVE Fix(_, _), FixAll(_, _)

(* holdings one by one, in order, each replaced by what it becomes *)
FixAll(i, hs) ==
  IF hs = <<>> THEN Same
  ELSE LET one == Fix(i, Head(hs).q) rest == FixAll(i, Tail(hs)) IN
       IF one.o = "error" \/ rest.o = "error" THEN Error
       ELSE IF one.o = "same" /\ rest.o = "same" THEN Same
       ELSE New((IF one.o = "same" THEN << Head(hs) >> ELSE Scale(Head(hs).x, one.h)) \o
                (IF rest.o = "same" THEN Tail(hs) ELSE rest.h), one.edge \/ rest.edge)

Settled(i, r) == IF r.o # "new" THEN r
                 ELSE LET more == FixAll(i, r.h) IN
                      IF more.o = "same" THEN r ELSE [more EXCEPT !.edge = more.edge \/ r.edge]

(* An option once its expiry has fixed at s: strike is kn/kd cents. *)
Exercise(i, n, s, kn, kd) ==
  LET q == L[n]
      strike == C(kn, 100 * kd)
      in == IF q.put THEN s * kd < kn ELSE s * kd > kn
      edge == s * kd = kn /\ kd # 1
      sign == IF q.put THEN -1 ELSE 1
      paid == [k |-> "pay", n |-> n]
  IN IF ~ in THEN New(<<>>, edge)
     ELSE IF q.phys THEN Settled(i, New(<< [x |-> << C(0 - sign, 1), strike >>, q |-> paid],
                                           [x |-> << C(sign, 1) >>, q |-> [k |-> "as", n |-> q.u]] >>, edge))
     ELSE New(<< [x |-> << C(sign, 1), Sub(Cents(s), strike) >>, q |-> paid] >>, edge)

Expire(i, n, kn, kd) ==
  LET s == Look(i, L[L[n].u].id, L[n].ed, L[n].et)
  IN IF s = -2 THEN Error ELSE IF s = -1 THEN Same ELSE Exercise(i, n, s, kn, kd)

Members(q) == IF q.k = "basket" THEN q.ms
              ELSE [a \in 1 .. Len(L[q.n].ms) |-> [x |-> << C(L[q.n].ws[a], 100) >>, q |-> [k |-> "as", n |-> L[q.n].ms[a]]]]

Fix(i, q) ==
  LET e == L[q.n] IN
  CASE q.k = "pay" -> Same
    [] q.k = "struck" -> Expire(i, q.n, q.f * e.frac, 10000)
    [] e.kind = "spot" -> Expire(i, q.n, e.k, 1)
    [] e.kind = "fwd" ->
         LET f == Look(i, L[e.u].id, e.sd, e.st) IN
         IF f = -2 THEN Error ELSE IF f = -1 THEN Same
         ELSE LET later == Expire(i, q.n, f * e.frac, 10000) IN
              IF later.o # "same" THEN later
              ELSE New(<< [x |-> <<>>, q |-> [k |-> "struck", n |-> q.n, f |-> f]] >>, FALSE)
    [] e.kind = "basket" ->
         LET r == FixAll(i, Members(q)) IN
         IF r.o # "new" THEN r
         ELSE New(<< [x |-> <<>>, q |-> [k |-> "basket", n |-> q.n, ms |-> r.h, c |-> IF q.k = "basket" THEN q.c + 1 ELSE 1]] >>, r.edge)
    [] OTHER -> Same

----------------------------------------------------------------------------
Init == /\ w \in 1 .. Len(World.cases)
        /\ book = [h |-> Start, edge |-> FALSE] /\ at = 0 /\ err = FALSE /\ hist = <<>>

Learn == \E i \in 1 .. Len(Case.stages) :
  /\ i >= at /\ ~ err
  /\ LET r == FixAll(i, book.h) IN
     /\ book' = IF r.o = "new" THEN [h |-> r.h, edge |-> book.edge \/ r.edge] ELSE book
     /\ err' = (r.o = "error")
     /\ hist' = Append(hist, [i |-> i, o |-> r.o])
  /\ at' = i
  /\ UNCHANGED w

Next == Len(hist) < MaxActs /\ Learn
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Only the number of times a basket was fixed depends on the stages. *)
RECURSIVE Plain(_)
Plain(hs) == [a \in 1 .. Len(hs) |-> [x |-> hs[a].x,
   q |-> IF hs[a].q.k = "basket" THEN [hs[a].q EXCEPT !.c = 0, !.ms = Plain(@)] ELSE hs[a].q]]
Staged == LET r == FixAll(at, Start) IN
  /\ err <=> r.o = "error"
  /\ ~ err /\ r.o = "same" => book.h = Start
  /\ ~ err /\ r.o = "new" => Plain(book.h) = Plain(r.h)
Settles == ~ err => FixAll(at, book.h).o \in {"same"}

Emit == Len(hist) > 0 => CSVWrite("%1$s", << ToJson([w |-> w, hist |-> hist, err |-> err, edge |-> book.edge, h |-> book.h,
   each |-> [a \in 1 .. Len(Start) |-> Fix(at, Start[a].q)]]) >>, IOEnv.OUT)
=============================================================================
