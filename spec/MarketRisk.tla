----------------------------- MODULE MarketRisk -----------------------------
(***************************************************************************)
(* A priced market under bumps, restores and moves of the valuation date   *)
(* (P01, P02).                                                             *)
(*                                                                         *)
(* m is the market; saved the save area, a set of [k, id, v]: what was     *)
(* there before the first bump of that item saved into it; mark how many   *)
(* actions had been taken when the area was last empty; hist what was done. *)
(* A bump that is not saved is not undone, so none is made while something *)
(* else is saved, except of what is saved already.                         *)
(***************************************************************************)
EXTENDS MarketActs

CONSTANTS MaxActs, Moves, Full
VARIABLES w, m, saved, snap, mark, hist
vars == <<w, m, saved, snap, mark, hist>>
Mk == World.markets[w]
L == Mk.insts
M0 == MarketOf(Mk)

Held(k, id) == \E x \in saved : x.k = k /\ x.id = id
Init == /\ w \in 1 .. Len(World.markets)
        /\ m = M0 /\ saved = {} /\ snap = M0 /\ mark = 0 /\ hist = <<>>

Bump == \E i \in 1 .. Len(Mk.bumps), keep \in BOOLEAN :
  LET b == Mk.bumps[i] there == b.id \in Names(m, b.k) IN
  /\ (keep \/ saved = {} \/ Held(b.k, b.id) \/ ~ there) = TRUE
  /\ m' = IF there THEN Replace(m, b.k, b.id, Bumped(b, Current(m, b.k, b.id))) ELSE m
  /\ saved' = IF there /\ keep /\ ~ Held(b.k, b.id) THEN saved \cup {[k |-> b.k, id |-> b.id, v |-> Current(m, b.k, b.id)]} ELSE saved
  /\ snap' = IF saved = {} THEN m ELSE snap
  /\ mark' = IF saved = {} THEN Len(hist) ELSE mark
  /\ hist' = Append(hist, [a |-> "bump", i |-> i, keep |-> keep, r |-> there])

RECURSIVE PutBack(_, _)
PutBack(mm, S) == IF S = {} THEN mm
                  ELSE LET x == CHOOSE y \in S : TRUE IN PutBack(Replace(mm, x.k, x.id, x.v), S \ {x})
Useful == saved # {} \/ Len(hist) < 2   (* nothing saved: try it, but not for ever *)
Restore == /\ Useful
           /\ m' = PutBack(m, saved)
           /\ hist' = Append(hist, [a |-> "restore", i |-> 0, keep |-> FALSE, r |-> TRUE])
           /\ UNCHANGED <<saved, snap, mark>>
Clear == /\ Useful
         /\ saved' = {}
         /\ hist' = Append(hist, [a |-> "clear", i |-> 0, keep |-> FALSE, r |-> TRUE])
         /\ UNCHANGED <<m, snap, mark>>

About == UNION { Reached(L, p.n) : p \in Range(Mk.port) }
Move == /\ Moves /\ saved = {}
        /\ \E i \in 1 .. Len(Mk.moves) :
                /\ m' = Moved(m, L, About, Mk.moves[i].n, Mk.moves[i].o)
                /\ hist' = Append(hist, [a |-> "move", i |-> i, keep |-> FALSE, r |-> Mk.moves[i].n # 0])
        /\ UNCHANGED <<saved, snap, mark>>

Go == Len(hist) < MaxActs /\ UNCHANGED w
Next == (Go /\ Bump) \/ (Go /\ Restore) \/ (Go /\ Clear) \/ (Go /\ Move)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
LastAct == hist[Len(hist)]
(* P01 of the specification itself *)
Restored == Len(hist) > 0 /\ LastAct.a = "restore" /\ saved # {} => m = snap
SavesOnce == \A x, y \in saved : x.k = y.k /\ x.id = y.id => x = y

(* the earlier moment which this one must be indistinguishable from *)
Same == IF Len(hist) = 0 THEN 0 - 1
        ELSE IF LastAct.a = "restore" THEN (IF saved = {} THEN Len(hist) - 1 ELSE mark)
        ELSE IF LastAct.a = "clear" \/ ~ LastAct.r THEN Len(hist) - 1 ELSE 0 - 1

RECURSIVE Unmoved(_)
Unmoved(n) == CASE L[n].kind = "equity" -> m.date = M0.date /\ View(m, L[n]) = View(M0, L[n])
                [] L[n].kind = "basket" -> \A a \in Range(L[n].ms) : Unmoved(a)
                [] L[n].kind \in {"spot", "fwd"} -> Unmoved(L[n].u) /\ m.vol[L[L[n].u].id] = M0.vol[L[L[n].u].id]
                [] L[n].kind = "watch" -> Unmoved(L[n].u)
                [] L[n].kind = "zero" -> m.date = M0.date /\ m.rate[L[n].credit] = M0.rate[L[n].credit]
                [] OTHER -> TRUE
Equities == { n \in 1 .. Len(L) : L[n].kind = "equity" }
Asked(kinds, n, d) == \E p \in Range(Mk.port) : L[p.n].kind \in kinds /\ L[p.n].u = n /\ d <= L[p.n].ed

What == [w |-> w, hist |-> hist, same |-> Same, date |-> m.date,
   defs |-> IF hist = <<>> THEN MarketDefs(Mk) ELSE <<>>,
   dfs  |-> { [id |-> c, d |-> d, v |-> Discount(m, c, d, M0.date), fix |-> m.rate[c] = M0.rate[c]] : c \in DOMAIN m.rate, d \in Range(Mk.probes) },
   spots |-> { [id |-> a, v |-> m.spot[a], fix |-> m.spot[a] = M0.spot[a]] : a \in DOMAIN m.spot },
   fwds |-> { [n |-> n, d |-> d, v |-> ForwardOn(m, L[n], d), fetched |-> Asked({"spot", "fwd", "watch"}, n, d), fix |-> Unmoved(n)] : n \in Equities, d \in Range(Mk.probes) },
   vols |-> { [n |-> n, d |-> d, k |-> k, r |-> VolOn(m, L[n], d, 0, Cents(k)), fetched |-> Asked({"spot", "fwd"}, n, d),
               fix |-> m.date = M0.date /\ m.vol[L[n].id] = M0.vol[L[n].id] /\ (Dyn(L[n]) = "delta" => Unmoved(n))] : n \in Equities, d \in Range(Mk.probes), k \in Range(Mk.strikes) },
   prices |-> [a \in 1 .. Len(Mk.port) |-> [n |-> Mk.port[a].n, x |-> Mk.port[a].x, r |-> WorthOf(m, L, Mk.port[a].n, m.date, 0), fix |-> Unmoved(Mk.port[a].n)]]
   ]
(* for undoing, what was done is enough *)
Emit == CSVWrite("%1$s", << ToJson(IF Full THEN What ELSE [w |-> w, hist |-> hist, same |-> Same, date |-> m.date, defs |-> <<>>]) >>, IOEnv.OUT)
=============================================================================
