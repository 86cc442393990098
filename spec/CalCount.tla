------------------------------ MODULE CalCount ------------------------------
(***************************************************************************)
(* Counting business days and volatility time (P09).                       *)
(*                                                                         *)
(* A walker starts at midnight on some day and moves a day at a time,      *)
(* adding the weight of each day it leaves behind.  acc is therefore, by   *)
(* definition, the count from midnight on `from` to midnight on `to`.      *)
(* Starting and ending part-way through a day takes off, or adds on, that  *)
(* part of the day's weight.                                               *)
(***************************************************************************)
EXTENDS Calendar

CONSTANTS MaxSpan
VARIABLES cal, from, to, acc
vars == <<cal, from, to, acc>>

Init == /\ cal \in CalIds
        /\ from \in Range(World.starts)
        /\ to = from
        /\ acc = 0

Walk == /\ to - from < MaxSpan
        /\ acc' = acc + Weight(cal, to)
        /\ to' = to + 1
        /\ UNCHANGED <<cal, from>>

(* Long strides, to reach far without visiting every intermediate state:   *)
(* a stride of a year is 365 walks.                                        *)
RECURSIVE Cum(_, _, _)
Cum(c, a, k) == IF k = 0 THEN 0 ELSE Weight(c, a) + Cum(c, a + 1, k - 1)
Stride == /\ to = from \/ (to - from) % 365 = 0
          /\ to - from < World.years * 365
          /\ from % 5 = 0
          /\ acc' = acc + Cum(cal, to, 365)
          /\ to' = to + 365
          /\ UNCHANGED <<cal, from>>

Next == Walk \/ Stride
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Fractions of a day, in quarters. *)
Parts == {0, 1, 2, 3}
(* The count in sixteenths from (from, ff) to (to, tf).  Within one day    *)
(* only intervals that do not run backwards are meaningful.                *)
Count16(ff, tf) == 4 * acc - ff * Weight(cal, from) + tf * Weight(cal, to)
Meaningful(ff, tf) == to > from \/ ff <= tf

(* Properties of the specification itself. *)
ClosedForm == acc = Worth(cal, from, to)
Bounded == acc >= 0 /\ acc <= 4 * (to - from)
NonNegative == \A ff, tf \in Parts : Meaningful(ff, tf) => Count16(ff, tf) >= 0
(* Additivity: any midpoint splits the count. *)
Additive == to - from <= 12 =>
  \A mid \in from..to, p \in Parts :
     LET a == Cum(cal, from, mid - from)
         b == Cum(cal, mid, to - mid)
     IN /\ a + b = acc
        /\ (4 * a + p * Weight(cal, mid)) + (4 * b - p * Weight(cal, mid)) = 4 * acc

Cases == { <<ff, tf>> \in {<<0,0>>, <<1,3>>, <<3,1>>, <<2,0>>, <<0,2>>} : Meaningful(ff, tf) }
Emit == \/ to - from > MaxSpan /\ to - from < 365
        \/ CSVWrite("%1$s", <<ToJson([c |-> cal, f |-> from, t |-> to,
              hf |-> IsHoliday(cal, from), wf |-> Weight(cal, from), b4 |-> Basis4(cal),
              x |-> { <<p[1], p[2], Count16(p[1], p[2])>> : p \in Cases }])>>, IOEnv.OUT)
=============================================================================
