------------------------------ MODULE Reports -------------------------------
(***************************************************************************)
(* A portfolio on a market: greeks and time-bumped reports, and moving the  *)
(* valuation date for good (P04, P05).                                     *)
(*                                                                         *)
(* m is the market, L the instruments as they are by now, hist what was     *)
(* done. World.markets[w] has port [n, x], bumps, moves [n, o] and         *)
(* gens, each of                                                           *)
(*   [k "delta", n]        spot up and down by n basis points              *)
(*   [k "vega", o, n, m]   vol up and down                                 *)
(*   [k "time", n, o, subs] forward by n days, with reports in it           *)
(***************************************************************************)
EXTENDS MarketActs

CONSTANT MaxActs
VARIABLES w, m, L, hist
vars == <<w, m, L, hist>>
Mk == World.markets[w]
Book == Range(Mk.port)

----------------------------------------------------------------------------
(* Moving on: days from the old date up to, not including, the new one fix. *)
Exercised(q, s, k) ==
  IF q.phys THEN [kind |-> "delivered", id |-> q.id, credit |-> q.credit, u |-> q.u, put |-> q.put, s |-> s, strike |-> k]
  ELSE [kind |-> "gone", id |-> q.id, credit |-> q.credit]
FixedAs(mm, LL, q, n, o) ==
  LET Past(d) == mm.date <= d /\ d < mm.date + n
      Seen(d) == IF o = "forward" THEN ForwardOn(mm, LL[q.u], d) ELSE mm.spot[LL[q.u].id]
      Struck == [q EXCEPT !.kind = "struck"] @@ [strike |-> Mul(Bp(q.frac), Seen(q.sd))]
  IN CASE q.kind = "spot" /\ Past(q.ed) -> Exercised(q, Seen(q.ed), Cents(q.k))
       [] q.kind = "struck" /\ Past(q.ed) -> Exercised(q, Seen(q.ed), q.strike)
       [] q.kind = "fwd" /\ Past(q.sd) -> IF Past(q.ed) THEN Exercised(q, Seen(q.ed), Struck.strike) ELSE Struck
       [] OTHER -> q
About(LL) == UNION { Reached(LL, p.n) : p \in Book }
Later(mm, LL, n, o) == [m |-> Moved(mm, LL, About(LL), n, o), L |-> [a \in 1 .. Len(LL) |-> FixedAs(mm, LL, LL[a], n, o)]]

----------------------------------------------------------------------------
(* Reports. Worths of the holdings that have to do with e are enough for    *)
(* differences.                                                            *)
Worths(mm, LL, S) == { [p |-> a, x |-> Mk.port[a].x, r |-> WorthOf(mm, LL, Mk.port[a].n, mm.date, 0)] : a \in S }
Every == 1 .. Len(Mk.port)
On(LL, e) == { a \in Every : e \in Reached(LL, Mk.port[a].n) }
RECURSIVE Surfaces(_, _)
Surfaces(LL, n) == CASE LL[n].kind \in {"spot", "fwd", "struck"} -> {LL[n].u}
                     [] LL[n].kind = "basket" -> UNION { Surfaces(LL, a) : a \in Range(LL[n].ms) }
                     [] OTHER -> {}
Volatile(LL) == UNION { Surfaces(LL, p.n) : p \in Book }

RECURSIVE Report(_, _, _)
Report(mm, LL, g) ==
  CASE g.k = "delta" -> [k |-> "delta", n |-> g.n, ids |-> { LET S == On(LL, e) id == LL[e].id B(n) == After(mm, [k |-> "spot", id |-> id, o |-> "rel", n |-> n, m |-> 0]) IN
           [id |-> id, spot |-> mm.spot[id], un |-> Worths(mm, LL, S), up |-> Worths(B(g.n), LL, S), dn |-> Worths(B(0 - g.n), LL, S)] : e \in About(LL) }]
    [] g.k = "vega" -> [k |-> "vega", n |-> g.n, ids |-> { LET S == On(LL, e) id == LL[e].id
           B(mk, n) == After(mk, [k |-> "vol", id |-> id, o |-> g.o, n |-> n, m |-> g.m])
           (* what the library takes for the opposite of an additive bump *)
           O == After(B(mm, g.n), [k |-> "vol", id |-> id, o |-> g.o, n |-> 0 - 2 * g.n, d |-> 10000 + g.n, m |-> g.m]) IN
           [id |-> id, un |-> Worths(mm, LL, S), up |-> Worths(B(mm, g.n), LL, S), dn |-> Worths(B(mm, 0 - g.n), LL, S), pin |-> Worths(O, LL, S)] : e \in Volatile(LL) }]
    [] g.k = "time" -> LET f == Later(mm, LL, g.n, g.o) IN
           [k |-> "time", n |-> g.n, o |-> g.o, price |-> Worths(f.m, f.L, Every), subs |-> [a \in 1 .. Len(g.subs) |-> Report(f.m, f.L, g.subs[a])]]

----------------------------------------------------------------------------
Init == /\ w \in 1 .. Len(World.markets)
        /\ m = MarketOf(Mk) /\ L = Mk.insts /\ hist = <<>>
Did(a, i) == hist' = Append(hist, [a |-> a, i |-> i])
Generate == \E i \in 1 .. Len(Mk.gens) : Did("report", i) /\ UNCHANGED <<m, L>>
Bump == \E i \in 1 .. Len(Mk.bumps) : Did("bump", i) /\ m' = After(m, Mk.bumps[i]) /\ UNCHANGED L
Advance == \E i \in 1 .. Len(Mk.moves) : LET f == Later(m, L, Mk.moves[i].n, Mk.moves[i].o) IN
             Did("advance", i) /\ m' = f.m /\ L' = f.L
Go == Len(hist) < MaxActs /\ UNCHANGED w
Next == (Go /\ Generate) \/ (Go /\ Bump) \/ (Go /\ Advance)
Spec == Init /\ [][Next]_vars

(* nothing that should have been fixed is left unfixed *)
Fixed == \A a \in 1 .. Len(L) : /\ L[a].kind \in {"spot", "fwd", "struck"} => m.date <= L[a].ed
                                /\ L[a].kind = "fwd" => m.date <= L[a].sd

Last == hist[Len(hist)]
Emit == CSVWrite("%1$s", << ToJson([w |-> w, hist |-> hist, defs |-> IF hist = <<>> THEN MarketDefs(Mk) ELSE <<>>,
   price |-> IF hist # <<>> /\ Last.a = "report" THEN {} ELSE Worths(m, L, Every),
   report |-> IF hist # <<>> /\ Last.a = "report" THEN << Report(m, L, Mk.gens[Last.i]) >> ELSE <<>>]) >>, IOEnv.OUT)
=============================================================================
