---------------------------- MODULE FixingTable -----------------------------
(***************************************************************************)
(* A fixing table as a partial function (P07).                             *)
(*                                                                         *)
(* The table maps (instrument, day, time of day) to a value and knows the  *)
(* day up to which fixings are known.  The only action supplies a whole    *)
(* curve of points for one instrument.  A curve that names one moment      *)
(* twice, or a second curve for an instrument, is rejected and the table   *)
(* stays as it was.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, CSV, IOUtils, TLC

CONSTANTS Known, MaxOps, MaxPoints, Ids
VARIABLES table, curves, hist
vars == <<table, curves, hist>>

Days == {Known - 1, Known, Known + 1}
Tods == {"Open", "EDSP", "Close"}
Moments == Days \X Tods
NoValue == -1

Init == /\ table = [k \in Ids \X Moments |-> NoValue]
        /\ curves = {}
        /\ hist = <<>>

MomentSeqs == UNION { [1..n -> Moments] : n \in 0..MaxPoints }
Duplicated(ms) == \E a, b \in 1..Len(ms) : a # b /\ ms[a] = ms[b]

(* The value of the n-th point of the k-th curve supplied. *)
Val(k, n) == 100 * k + n

Accepted(id, ms) == id \notin curves /\ ~ Duplicated(ms)

Supply(id, ms) ==
  LET k == Len(hist) + 1
      ok == Accepted(id, ms)
      pts == [n \in 1..Len(ms) |-> <<ms[n][1], ms[n][2], Val(k, n)>>]
  IN /\ k <= MaxOps
     /\ curves' = IF ok THEN curves \cup {id} ELSE curves
     /\ table' = IF ok
          THEN [q \in Ids \X Moments |->
                  IF q[1] = id /\ \E n \in 1..Len(ms) : ms[n] = q[2]
                  THEN Val(k, CHOOSE n \in 1..Len(ms) : ms[n] = q[2])
                  ELSE table[q]]
          ELSE table
     /\ hist' = Append(hist, [id |-> id, pts |-> pts, ok |-> ok, dup |-> Duplicated(ms)])

Next == \E id \in Ids, ms \in MomentSeqs : Supply(id, ms)
Spec == Init /\ [][Next]_vars

(* What a lookup answers. *)
Lookup(id, mo) ==
  IF table[<<id, mo>>] # NoValue THEN [r |-> "value", v |-> table[<<id, mo>>]]
  ELSE IF mo[1] < Known THEN [r |-> "error", v |-> 0]
  ELSE [r |-> "absent", v |-> 0]

----------------------------------------------------------------------------
(* Properties of the specification. *)
(* Nothing is in the table that an accepted curve did not supply. *)
Supplied == \A q \in Ids \X Moments : table[q] # NoValue =>
   \E k \in 1..Len(hist) : /\ hist[k].ok /\ hist[k].id = q[1]
      /\ \E n \in 1..Len(hist[k].pts) :
            hist[k].pts[n] = <<q[2][1], q[2][2], table[q]>>
(* Everything an accepted curve supplied is in the table. *)
Kept == \A k \in 1..Len(hist) : hist[k].ok =>
   \A n \in 1..Len(hist[k].pts) :
      table[<<hist[k].id, <<hist[k].pts[n][1], hist[k].pts[n][2]>> >>] = hist[k].pts[n][3]
(* Recorded values never change. *)
Stable == [][ \A q \in Ids \X Moments : table[q] # NoValue => table'[q] = table[q] ]_vars

View == <<table, curves, Len(hist), IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].ok>>

Emit == CSVWrite("%1$s", <<ToJson([known |-> Known, ops |-> hist',
          look |-> { <<q[1], q[2][1], q[2][2], Lookup(q[1], q[2])'.r, Lookup(q[1], q[2])'.v>>
                     : q \in Ids \X Moments }])>>, IOEnv.OUT)
=============================================================================
