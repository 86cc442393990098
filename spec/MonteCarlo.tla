----------------------------- MODULE MonteCarlo -----------------------------
(***************************************************************************)
(* One option priced by Monte-Carlo, under bumps, restores, moves of the    *)
(* date and the passage of time (P03).                                     *)
(*                                                                         *)
(* m is the market, L the instruments as they are by now (a strike may get  *)
(* set), bm the market the pricer was built on, at moment built: its        *)
(* random numbers and its steps date from then.  saved, snap, mark and hist *)
(* are those of MarketRisk.  World.markets[w] has opt, the place of the     *)
(* option, x, how much is held (hundredths), sub, the greatest variance of  *)
(* a step (in bp), bumps, moves, advances [n, o], and walks [ns, obs,       *)
(* steps]: observations <<day, time>> of the equities ns and a number of    *)
(* steps to take to each.                                                  *)
(***************************************************************************)
EXTENDS MarketActs

CONSTANTS MaxActs
VARIABLES w, m, L, bm, built, saved, snap, mark, hist
vars == <<w, m, L, bm, built, saved, snap, mark, hist>>
Mk == World.markets[w]
M0 == MarketOf(Mk)
Q == L[Mk.opt]
Under == L[Q.u]

Held(k, id) == \E x \in saved : x.k = k /\ x.id = id
Init == /\ w \in 1 .. Len(World.markets)
        /\ m = M0 /\ bm = M0 /\ L = Mk.insts
        /\ built = 0 /\ saved = {} /\ snap = M0 /\ mark = 0 /\ hist = <<>>
Did(a, i, keep, r) == hist' = Append(hist, [a |-> a, i |-> i, keep |-> keep, r |-> r])

Bump == \E i \in 1 .. Len(Mk.bumps), keep \in BOOLEAN :
  LET b == Mk.bumps[i] there == b.id \in Names(m, b.k) IN
  /\ (keep \/ saved = {} \/ Held(b.k, b.id) \/ ~ there) = TRUE
  /\ m' = After(m, b)
  /\ saved' = IF there /\ keep /\ ~ Held(b.k, b.id) THEN saved \cup {[k |-> b.k, id |-> b.id, v |-> Current(m, b.k, b.id)]} ELSE saved
  /\ snap' = IF saved = {} THEN m ELSE snap
  /\ mark' = IF saved = {} THEN Len(hist) ELSE mark
  /\ Did("bump", i, keep, there)
  /\ UNCHANGED <<L, bm, built>>

RECURSIVE PutBack(_, _)
PutBack(mm, S) == IF S = {} THEN mm
                  ELSE LET x == CHOOSE y \in S : TRUE IN PutBack(Replace(mm, x.k, x.id, x.v), S \ {x})
Restore == /\ saved # {}
           /\ m' = PutBack(m, saved) /\ Did("restore", 0, FALSE, TRUE)
           /\ UNCHANGED <<L, bm, built, saved, snap, mark>>
Clear == /\ saved # {}
         /\ saved' = {} /\ Did("clear", 0, FALSE, TRUE)
         /\ UNCHANGED <<m, L, bm, built, snap, mark>>

(* the first day something is observed *)
FirstDay == IF Q.kind = "fwd" THEN Q.sd ELSE Q.ed
(* The valuation date moves, as one of the bumps there are. *)
Move == /\ saved = {}
        /\ \E i \in 1 .. Len(Mk.moves) : LET v == Mk.moves[i] IN
             /\ m.date + v.n <= FirstDay
             /\ m' = Moved(m, L, {Q.u}, v.n, v.o)
             /\ Did("move", i, FALSE, v.n # 0)
        /\ UNCHANGED <<L, bm, built, saved, snap, mark>>
(* Time passes: a strike may be set on the way, and then the pricer is      *)
(* built anew, with new random numbers.                                    *)
Advance == /\ saved = {}
           /\ \E i \in 1 .. Len(Mk.advances) :
                LET v == Mk.advances[i]
                    to == m.date + v.n
                    seen == IF v.o = "forward" THEN ForwardOn(m, Under, Q.sd) ELSE m.spot[Under.id]
                    strikes == Q.kind = "fwd" /\ Q.sd < to
                    later == Moved(m, L, {Q.u}, v.n, v.o)
                IN /\ to <= Q.ed
                   /\ m' = later
                   /\ L' = IF strikes THEN [L EXCEPT ![Mk.opt] = [Q EXCEPT !.kind = "struck"] @@ [strike |-> Mul(Bp(Q.frac), seen)]] ELSE L
                   /\ bm' = IF strikes THEN later ELSE bm
                   /\ built' = IF strikes THEN Len(hist) + 1 ELSE built
                   /\ Did("advance", i, FALSE, strikes)
           /\ UNCHANGED <<saved, snap, mark>>

Go == Len(hist) < MaxActs /\ UNCHANGED w
Next == (Go /\ Bump) \/ (Go /\ Restore) \/ (Go /\ Clear) \/ (Go /\ Move) \/ (Go /\ Advance)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What is observed of equity e at a moment: forward f, displacement x,     *)
(* variance at the forward v.                                              *)
Observed(mm, e, d, t) ==
  LET fw == ForwardOn(mm, L[e], d)
      sf == mm.vol[L[e].id].sf
      ops == SurfaceStack(mm, L[e])
      x == CHOOSE y \in VolAt(sf, ops, d, Instant(t), Ref("fw")) : TRUE
  IN [f |-> fw, x |-> Displacement(sf, ops, d)[2], v |-> Let("fw", fw, Variance(x)),
      c |-> [a \in 1 .. Len(x.c) |-> << Let("fw", fw, x.c[a][1]), Let("fw", fw, x.c[a][2]) >>]]
Schedule(mm, e, obs) == [a \in 1 .. Len(obs) |-> Observed(mm, e, obs[a][1], obs[a][2])]
(* variance gained on the way to an observation; it may not be lost *)
Gain(S, a) == IF a = 1 THEN S[1].v ELSE Sub(S[a].v, S[a - 1].v)
RECURSIVE Sound(_, _)
Sound(S, a) == IF a > Len(S) THEN <<>>
               ELSE S[a].c \o << <<IF a = 1 THEN Zero ELSE S[a - 1].v, S[a].v>> >> \o Sound(S, a + 1)
(* as many steps as it takes for none to have more variance than sub *)
StepsFor(S, a) == Max2(One, Ceil(Div(Gain(S, a), Bp(Mk.sub))))
RECURSIVE MostSteps(_, _, _, _)
MostSteps(mm, ns, obs, a) ==
  LET here == StepsFor(Schedule(mm, Head(ns), obs), a)
  IN IF Len(ns) = 1 THEN here ELSE Max2(here, MostSteps(mm, Tail(ns), obs, a))

(* A path starts from one, moves by a gaussian times the standard deviation *)
(* of each step, and is scaled to the forwards.  The gaussians of asset z    *)
(* are called g<z>_1, g<z>_2... in the order in which they are used.         *)
RECURSIVE Sum(_, _)
Sum(s, a) == IF a = 0 THEN 0 ELSE s[a] + Sum(s, a - 1)
RECURSIVE Stride(_, _, _, _)
Stride(z, from, n, sd) == IF n = 0 THEN One ELSE Mul(Stride(z, from, n - 1, sd), Add(One, Mul(Ref("g" \o ToString(z) \o "_" \o ToString(from + n)), sd)))
RECURSIVE Walked(_, _, _, _)
Walked(z, S, steps, a) ==
  IF a = 0 THEN One
  ELSE LET sd == Sqrt(Div(Gain(S, a), K(steps[a])))
       IN Mul(Walked(z, S, steps, a - 1), Let("sd", sd, Stride(z, Sum(steps, a - 1), steps[a], Ref("sd"))))
Along(z, S, steps) == [a \in 1 .. Len(S) |-> Add(Mul(Walked(z, S, steps, a), Sub(S[a].f, S[a].x)), S[a].x)]
Walk(k) == LET v == Mk.walks[k] IN
  [k |-> k, need |-> [a \in 1 .. Len(v.obs) |-> MostSteps(m, v.ns, v.obs, a)],
   assets |-> [z \in 1 .. Len(v.ns) |-> LET S == Schedule(m, v.ns[z], v.obs) IN [p |-> Along(z, S, v.steps), c |-> Sound(S, 1)]]]

----------------------------------------------------------------------------
(* What the option itself looks at, and what it then pays. *)
Looks == IF Q.kind = "fwd" THEN << <<Q.sd, Q.st>>, <<Q.ed, Q.et>> >> ELSE << <<Q.ed, Q.et>> >>
Pays == LET s == IF Q.kind = "fwd" THEN Ref("s2") ELSE Ref("s1")
            k == CASE Q.kind = "fwd" -> Mul(Bp(Q.frac), Ref("s1")) [] Q.kind = "struck" -> Q.strike [] OTHER -> Cents(Q.k)
        IN Max2(IF Q.put THEN Sub(k, s) ELSE Sub(s, k), Zero)
Coupon == << [kind |-> "zero", id |-> "pay", credit |-> Q.credit, lag |-> Q.lag, ed |-> Q.ed, et |-> Q.et, pay |-> PayDate(Q)] >>
(* the market with a vol of one, for finding out what was drawn *)
Plain == After(m, [k |-> "vol", id |-> Under.id, o |-> "rep", n |-> 10000, m |-> 0])
SamePath == m.date = bm.date /\ View(m, Under) = View(bm, Under) /\ m.vol[Under.id] = bm.vol[Under.id]

LastAct == hist[Len(hist)]
Same == IF Len(hist) = 0 THEN 0 - 1
        ELSE IF LastAct.a = "restore" THEN mark
        ELSE IF LastAct.a = "clear" \/ (LastAct.a \in {"bump", "move"} /\ ~ LastAct.r) THEN Len(hist) - 1 ELSE 0 - 1
Restored == Len(hist) > 0 /\ LastAct.a = "restore" => m = snap
Alive == Q.kind \in {"spot", "fwd", "struck"} /\ m.date <= FirstDay

What ==
  LET S == Schedule(m, Q.u, Looks) B == Schedule(bm, Q.u, Looks) U == Schedule(Plain, Q.u, Looks) n == Len(Looks) IN
  [w |-> w, hist |-> hist, same |-> Same, built |-> built, fix |-> SamePath, date |-> m.date,
   defs |-> IF hist = <<>> THEN MarketDefs(Mk) ELSE <<>>,
   n |-> [a \in 1 .. n |-> StepsFor(B, a)],
   obs |-> [a \in 1 .. n |-> [f |-> S[a].f, x |-> S[a].x, v |-> Gain(S, a), unit |-> IF built = Len(hist) THEN Gain(U, a) ELSE Zero]],
   c |-> Sound(S, 1), pay |-> Pays, df |-> WorthOf(m, Coupon, 1, m.date, 0),
   walks |-> IF Len(hist) <= 1 THEN [k \in 1 .. Len(Mk.walks) |-> Walk(k)] ELSE <<>>]
Emit == CSVWrite("%1$s", << ToJson(What) >>, IOEnv.OUT)
=============================================================================
