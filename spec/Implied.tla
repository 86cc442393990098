------------------------------ MODULE Implied -------------------------------
(***************************************************************************)
(* Solving for the flat volatility at which a portfolio has a given price   *)
(* (P22).  Reports.tla's portfolios and markets; besides bumping and moving *)
(* on, one may solve for                                                   *)
(*   tasks[i] = [lo, hi (bp), n (bp), off (cents), tol, iter]              *)
(* the target being the price at a flat vol of n, plus off.  Afterwards the *)
(* surface is flat, at a volatility that terms call "implied".             *)
(*                                                                         *)
(* A portfolio with no surface, or several, is refused and left alone.      *)
(***************************************************************************)
EXTENDS Reports

Flat(mm, id, n) == After(mm, [k |-> "vol", id |-> id, o |-> "rep", n |-> n, m |-> 0])
Unknown(mm, id) == After(mm, [k |-> "vol", id |-> id, o |-> "unk", n |-> 0, m |-> 0])
Ids == { L[e].id : e \in Volatile(L) }
Which == CHOOSE id \in Ids : TRUE
Solve == \E i \in 1 .. Len(Mk.tasks) :
           /\ Did("solve", i) /\ UNCHANGED L
           /\ m' = IF Cardinality(Ids) = 1 THEN Unknown(m, Which) ELSE m
ImpliedNext == (Go /\ Solve) \/ (Go /\ Bump) \/ (Go /\ Advance)
ImpliedSpec == Init /\ [][ImpliedNext]_vars

(* where the portfolio stands at both ends, at the target and anywhere *)
Problem(id, t) == [lo |-> Worths(Flat(m, id, t.lo), L, Every), hi |-> Worths(Flat(m, id, t.hi), L, Every),
                   goal |-> Worths(Flat(m, id, t.n), L, Every), at |-> Worths(Unknown(m, id), L, Every)]
Solved == hist # <<>> /\ Last.a = "solve"
EmitImplied == CSVWrite("%1$s", << ToJson([w |-> w, hist |-> hist, defs |-> IF hist = <<>> THEN MarketDefs(Mk) ELSE <<>>,
   ids |-> Ids,
   problem |-> IF Solved /\ Cardinality(Ids) = 1 THEN << Problem(Which, Mk.tasks[Last.i]) >> ELSE <<>>]) >>, IOEnv.OUT)

(* whatever was done before, the surface solved for is the same flat one *)
Forgotten == Solved /\ Cardinality(Ids) = 1 => m.vol[Which].st[Len(m.vol[Which].st)].o = "unk"
=============================================================================
