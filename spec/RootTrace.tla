----------------------------- MODULE RootTrace ------------------------------
(***************************************************************************)
(* What a bracketing root finder may do (P22).  Points are given by their  *)
(* rank among all points of a run, values by their sign (2: the function   *)
(* failed).  Events: "start" [lo, hi, budget, enough], "eval" [x, s],      *)
(* "root" [x, near_lo, near_hi], "fail".                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Events == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, phase, pts, n, run
vars == <<i, phase, pts, n, run>>
E == Events[i]
Init == i = 1 /\ phase = "idle" /\ pts = {} /\ n = 0 /\ run = [lo |-> 0, hi |-> 0, budget |-> 0, enough |-> FALSE]

Start == /\ E.op = "start" /\ phase = "idle"
         /\ run' = [lo |-> E.lo, hi |-> E.hi, budget |-> E.budget, enough |-> E.enough]
         /\ pts' = {} /\ n' = 0 /\ phase' = "ends"

SignAt(S, x) == { p[2] : p \in { q \in S : q[1] = x } }
(* Both ends are looked at before anything else. *)
EvalEnd == /\ E.op = "eval" /\ phase = "ends"
           /\ E.x \in {run.lo, run.hi}
           /\ IF E.s = 2 THEN phase' = "doomed" /\ UNCHANGED pts
              ELSE /\ pts' = pts \cup {<<E.x, E.s>>}
                   /\ LET l == SignAt(pts', run.lo) h == SignAt(pts', run.hi)
                      IN phase' = IF l = {} \/ h = {} THEN "ends"
                                  ELSE IF l = h /\ l # {0} THEN "doomed" ELSE "search"
           /\ UNCHANGED <<n, run>>
(* Then only points inside the interval, within the budget. *)
EvalInside == /\ E.op = "eval" /\ phase = "search"
              /\ E.x >= run.lo /\ E.x <= run.hi
              /\ n < run.budget /\ n' = n + 1
              /\ IF E.s = 2 THEN phase' = "doomed" /\ UNCHANGED pts
                 ELSE phase' = "search" /\ pts' = pts \cup {<<E.x, E.s>>}
              /\ UNCHANGED run
(* A root is a point seen to be zero, or seen with a change of sign within *)
(* the tolerance.                                                          *)
Root == /\ E.op = "root" /\ phase = "search"
        /\ \E s \in SignAt(pts, E.x) :
             s = 0 \/ \E p \in pts : p[1] >= E.near_lo /\ p[1] <= E.near_hi /\ p[2] # s
        /\ phase' = "idle" /\ UNCHANGED <<pts, n, run>>
(* Failing is for ends of equal sign, failures of the function, and an     *)
(* exhausted budget.                                                       *)
Fail == /\ E.op = "fail"
        /\ phase = "doomed" \/ (phase = "search" /\ n = run.budget /\ ~ run.enough)
        /\ phase' = "idle" /\ UNCHANGED <<pts, n, run>>

Next == i <= Len(Events) /\ (Start \/ EvalEnd \/ EvalInside \/ Root \/ Fail) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
(* While searching, the points seen still bracket a change of sign. *)
Bracket == phase = "search" => \E p, q \in pts : p[2] * q[2] <= 0
Accepted == LET k == TLCGet("stats").diameter - 1
            IN k = Len(Events) \/ (PrintT(<<"TRACE-REJECTED", k + 1, ToJson(Events[k + 1])>>) /\ FALSE)
=============================================================================
