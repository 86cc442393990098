------------------------------ MODULE RootFun -------------------------------
(***************************************************************************)
(* The problems put to the root finder (P22): every piecewise linear       *)
(* function through five equally spaced nodes with values from Values,     *)
(* on an interval given in either direction, with an iteration budget and  *)
(* possibly a failure of the function at its n-th evaluation.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, CSV, TLC

Values == {-9, -1, 0, 1, 2}
Nodes == 5
VARIABLES ys, dir, budget, fault, shape
vars == <<ys, dir, budget, fault, shape>>

Init ==
  /\ ys \in [1 .. Nodes -> Values]
  /\ dir \in {1, -1}
  /\ \/ budget = 3000 /\ fault = 0 /\ shape \in {"narrow", "wide"}
     \/ /\ ys[3] = 1 /\ ys[4] = ys[3] /\ dir = 1 /\ shape = "narrow"
        /\ \/ budget \in {0, 1, 2, 5, 9, 40} /\ fault = 0
           \/ budget = 3000 /\ fault \in 1 .. 7
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Bracketed == Sign(ys[1]) * Sign(ys[Nodes]) <= 0
(* There is a root whenever the ends differ in sign: some node is zero or  *)
(* two neighbours differ.                                                  *)
RootExists == Bracketed => \/ \E n \in 1 .. Nodes : ys[n] = 0
                           \/ \E n \in 1 .. Nodes - 1 : Sign(ys[n]) # Sign(ys[n + 1])

Emit == CSVWrite("%1$s", << ToJson([ys |-> ys, dir |-> dir, budget |-> budget, fault |-> fault, shape |-> shape,
                                    bracketed |-> Bracketed]) >>, IOEnv.OUT)
=============================================================================
