------------------------------ MODULE CalStep -------------------------------
(***************************************************************************)
(* Stepping by business days, fractional steps and date rules (P10).       *)
(*                                                                         *)
(* Mode "whole": a traveller first slips off a holiday in the stated       *)
(* direction, then moves one business day at a time, k counting the moves  *)
(* (negative when moving back).  Where it stands is, by definition, the    *)
(* result of stepping k business days.                                     *)
(*                                                                         *)
(* Mode "part": on a volatility calendar a walker moves one calendar day   *)
(* at a time in one direction, cum being the weighted count so far.  A     *)
(* fractional step lands on a day where that count is nearest the          *)
(* requested one (either, when two days are equally near).                 *)
(***************************************************************************)
EXTENDS Calendar

CONSTANTS MaxSteps, MaxDays, LongStep
VARIABLES mode, cal, from, slip, dir, date, k, cum
vars == <<mode, cal, from, slip, dir, date, k, cum>>

RECURSIVE Slip(_, _, _)
Slip(c, n, s) == IF IsHoliday(c, n) THEN Slip(c, n + s, s) ELSE n

IsVol(c) == Cals[c].kind = "vol" /\ Cals[c].w > 0

Init ==
  /\ cal \in CalIds /\ from \in Range(World.starts)
  /\ dir \in {1, -1} /\ slip \in {1, -1} /\ k = 0 /\ cum = 0
  /\ \/ mode = "whole" /\ ~ IsVol(cal) /\ date = Slip(cal, from, slip)
     \/ mode = "part" /\ IsVol(cal) /\ slip = dir /\ date = from

OneStep == /\ mode = "whole" /\ k \in (-MaxSteps + 1) .. (MaxSteps - 1)
           /\ date' = Slip(cal, date + dir, dir)
           /\ k' = k + dir
           /\ UNCHANGED <<mode, cal, from, slip, dir, cum>>

(* Far strides: LongStep single steps at once. *)
RECURSIVE Steps(_, _, _, _)
Steps(c, n, s, times) == IF times = 0 THEN n ELSE Steps(c, Slip(c, n + s, s), s, times - 1)
ManySteps == /\ mode = "whole" /\ k % LongStep = 0 /\ k \in (-3 * LongStep) .. (3 * LongStep) /\ from % 4 = 1
             /\ date' = Steps(cal, date, dir, LongStep)
             /\ k' = k + dir * LongStep
             /\ UNCHANGED <<mode, cal, from, slip, dir, cum>>

(* Forwards the days left behind count, backwards the days arrived at do   *)
(* not: [from, date) and (date, from].                                     *)
OneDay == /\ mode = "part" /\ k < MaxDays
          /\ cum' = cum + Weight(cal, date)
          /\ date' = date + dir
          /\ k' = k + 1
          /\ UNCHANGED <<mode, cal, from, slip, dir>>

Next == OneStep \/ ManySteps \/ OneDay
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties of the specification. *)
OnBusinessDay == mode = "whole" => ~ IsHoliday(cal, date)
(* Moving there and counting business days agree. *)
RECURSIVE BizBetween(_, _, _)
BizBetween(c, a, b) == IF a >= b THEN 0 ELSE (IF IsHoliday(c, a) THEN 0 ELSE 1) + BizBetween(c, a + 1, b)
CountAgrees == mode = "whole" /\ k \in (-MaxSteps) .. MaxSteps =>
   LET start == Slip(cal, from, slip)
   IN IF k >= 0 THEN BizBetween(cal, start, date) = k ELSE BizBetween(cal, date, start) = -k
Increasing == mode = "part" => cum <= 4 * k

----------------------------------------------------------------------------
(* Date rules. *)
IsLeap(yr) == yr % 4 = 0 /\ (yr % 100 # 0 \/ yr % 400 = 0)
(* First day of each month, from the file (computed from the calendar of   *)
(* Dates.tla); two days are in the same month when no month starts between. *)
Firsts == Range(World.firsts)
SameMonth(a, b) == LET lo == IF a < b THEN a ELSE b
                       hi == IF a < b THEN b ELSE a
                   IN \A f \in Firsts : ~ (f > lo /\ f <= hi)
ModFol == LET fwd == Slip(cal, from, 1) IN IF SameMonth(from, fwd) THEN fwd ELSE Slip(cal, from, -1)

Abs(x) == IF x < 0 THEN -x ELSE x
(* Targets in eighths of a day crossed by the next day's move, with the    *)
(* nearest days. *)
Targets == LET nc == cum + Weight(cal, date)
           IN { t \in (2 * cum + 1) .. (2 * nc) : TRUE }
Nearest(t) == LET nc == 2 * (cum + Weight(cal, date))
                  near == t - 2 * cum
                  far == nc - t
              IN IF near < far THEN {date} ELSE IF far < near THEN {date + dir} ELSE {date, date + dir}

(* A volatility calendar that gives holidays no weight still takes          *)
(* fractional steps: to the nearest whole number of business days.          *)
NearWhole == IF Cals[cal].kind = "vol" /\ slip = dir
             THEN { 8 * k + e : e \in { e \in -3..3 : dir * (8 * k + e) >= 0 } } ELSE {}
EmitWhole == CSVWrite("%1$s", <<ToJson([m |-> "whole", c |-> cal, f |-> from, s |-> slip, k |-> k, d |-> date, near |-> NearWhole])>>, IOEnv.OUT)
EmitRule == \/ k # 0 \/ slip # 1 \/ dir # 1
            \/ CSVWrite("%1$s", <<ToJson([m |-> "rule", c |-> cal, f |-> from, mf |-> ModFol,
                   next |-> Slip(cal, from, 1), prev |-> Slip(cal, from, -1)])>>, IOEnv.OUT)
EmitPart == \/ k = MaxDays
            \/ CSVWrite("%1$s", <<ToJson([m |-> "part", c |-> cal, f |-> from, s |-> dir,
                   x |-> { <<t, Nearest(t)>> : t \in Targets } \cup (IF k = 0 THEN {<<0, {from}>>} ELSE {})])>>, IOEnv.OUT)
Emit == IF mode = "whole" THEN EmitWhole /\ EmitRule ELSE EmitPart
=============================================================================
