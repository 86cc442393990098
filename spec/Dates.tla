------------------------------- MODULE Dates -------------------------------
(***************************************************************************)
(* The calendar as a machine that is only told what tomorrow is.           *)
(*                                                                         *)
(* The state is one day: its serial number n (a truncated Julian day       *)
(* number), its year, month and day of month, and its weekday (Monday = 0).*)
(* The only action is NextDay, which applies the Gregorian rules.  The     *)
(* machine starts on the first supported date and runs to the last, so its *)
(* one behaviour lists every supported date in order.  Each day is written *)
(* out and compared with what the library says about that day.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, CSV, IOUtils, TLC

CONSTANTS LastDay           \* the last supported serial number
VARIABLES n, y, m, d, w

vars == <<n, y, m, d, w>>

IsLeap(yr) == yr % 4 = 0 /\ (yr % 100 # 0 \/ yr % 400 = 0)

MonthLen(yr, mo) ==
  CASE mo \in {4, 6, 9, 11} -> 30
    [] mo = 2 -> IF IsLeap(yr) THEN 29 ELSE 28
    [] OTHER -> 31

(* Serial number 1 is Friday the 24th of May 1968 (Julian day number       *)
(* 2440001).                                                               *)
Init == n = 1 /\ y = 1968 /\ m = 5 /\ d = 24 /\ w = 4

NextDay ==
  /\ n < LastDay
  /\ n' = n + 1
  /\ w' = (w + 1) % 7
  /\ IF d < MonthLen(y, m)
     THEN d' = d + 1 /\ UNCHANGED <<y, m>>
     ELSE /\ d' = 1
          /\ IF m = 12 THEN m' = 1 /\ y' = y + 1
                       ELSE m' = m + 1 /\ y' = y

Next == NextDay
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What must be true of the machine itself. *)
TypeOK == /\ n \in 1..LastDay
          /\ m \in 1..12
          /\ d \in 1..MonthLen(y, m)
          /\ w \in 0..6

(* An independent closed form: days from 1 March of year 0 (civil-from-days *)
(* style), shifted to the epoch.  Ties the walk to the absolute calendar.  *)
Civil(yr, mo, da) ==
  LET yy == IF mo <= 2 THEN yr - 1 ELSE yr
      mm == IF mo <= 2 THEN mo + 9 ELSE mo - 3
  IN 365 * yy + (yy \div 4) - (yy \div 100) + (yy \div 400)
     + ((153 * mm + 2) \div 5) + da - 1
ClosedForm == n = Civil(y, m, d) - Civil(1968, 5, 23)
WeekdayForm == w = (n + 3) % 7

(* Consecutive days are ordered the same way by number and by (y,m,d). *)
Ordered == [][ y' > y \/ (y' = y /\ (m' > m \/ (m' = m /\ d' > d))) ]_vars

----------------------------------------------------------------------------
(* Emission: one line per day. *)
Emit == CSVWrite("{\"n\":%1$s,\"y\":%2$s,\"m\":%3$s,\"d\":%4$s,\"w\":%5$s}",
                 <<n, y, m, d, w>>, IOEnv.OUT)
=============================================================================
