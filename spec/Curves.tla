------------------------------- MODULE Curves -------------------------------
(***************************************************************************)
(* Rate curves under stacks of bumps (P13).  The state is a curve of the   *)
(* world and the bumps applied to it so far, oldest first.                 *)
(***************************************************************************)
EXTENDS CurveTerms, FiniteSets, Json, IOUtils, CSV, TLC

World == JsonDeserialize(IOEnv.WORLD)
CurveSet == World.curves
CONSTANT MaxBumps
Bumps == { <<"ann", 100>>, <<"ann", -50>>, <<"cc", 50>>, <<"cc", -30>>, <<"rel", 11000>>, <<"rel", 2500>>, <<"rel", 0>> }

VARIABLES c, stack
vars == <<c, stack>>
Init == c \in 1 .. Len(CurveSet) /\ stack = <<>>
Bump == /\ Len(stack) < MaxBumps
        /\ \E b \in Bumps : stack' = Append(stack, b)
        /\ UNCHANGED c
Next == Bump
Spec == Init /\ [][Next]_vars

Cv == CurveSet[c]
Emit == CSVWrite("%1$s", << ToJson([c |-> c, stack |-> stack,
   q |-> [k \in 1 .. Len(Cv.dates) |->
            LET d == Cv.dates[k]
            IN IF CurveDefined(Cv, d) THEN [d |-> d, ok |-> TRUE, r |-> Rate(Cv, stack, d), t |-> Time(Cv, d)]
               ELSE [d |-> d, ok |-> FALSE, r |-> Zero, t |-> Zero]]]) >>, IOEnv.OUT)
=============================================================================
