------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* Calendars: which days are business days and how much each day weighs.   *)
(*                                                                         *)
(* Day numbers are serial numbers as in Dates.tla, so the weekday of n is  *)
(* (n + 3) % 7 with Monday = 0.  Weights are in quarters: a business day   *)
(* weighs 4, a holiday 0, or w for a volatility calendar of weight w/4.    *)
(* The calendars to explore come from a file (IOEnv.WORLD), so that fixed  *)
(* and randomly drawn holiday lists go through the same specification.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, CSV, IOUtils, TLC

World == JsonDeserialize(IOEnv.WORLD)
Cals == World.cals
CalIds == 1..Len(Cals)
Range(s) == { s[i] : i \in 1..Len(s) }
Hols == [c \in CalIds |-> Range(Cals[c].hols)]

Weekday(n) == (n + 3) % 7
IsWeekend(n) == Weekday(n) > 4

(* "every": every day is a business day; otherwise weekends and the listed *)
(* holidays are not. "vol" looks through to its inner calendar.            *)
IsHoliday(c, n) ==
  LET k == IF Cals[c].kind = "vol" THEN Cals[c].inner ELSE Cals[c].kind
  IN CASE k = "every" -> FALSE
       [] k = "weekday" -> IsWeekend(n)
       [] k = "holidays" -> IsWeekend(n) \/ n \in Hols[c]

Weight(c, n) == IF IsHoliday(c, n) THEN (IF Cals[c].kind = "vol" THEN Cals[c].w ELSE 0) ELSE 4

(* Business days (or weighted days) in a conventional year, in quarters.   *)
InnerBasis(c) == LET k == IF Cals[c].kind = "vol" THEN Cals[c].inner ELSE Cals[c].kind
                 IN IF k = "every" THEN 365 ELSE 252
Basis4(c) == IF Cals[c].kind = "vol"
             THEN InnerBasis(c) * (4 - Cals[c].w) + 365 * Cals[c].w
             ELSE InnerBasis(c) * 4

(* The weight of the days a <= n < b, in quarters, in closed form; CalCount *)
(* checks that it is what walking from a to b adds up.                      *)
LOCAL Before(n) == LET m == n + 3 + 7000 IN 5 * (m \div 7) + (IF m % 7 < 5 THEN m % 7 ELSE 5)
WorkingHols == [c \in CalIds |-> { h \in Hols[c] : ~ IsWeekend(h) }]
Business(c, a, b) ==
  LET k == IF Cals[c].kind = "vol" THEN Cals[c].inner ELSE Cals[c].kind
  IN CASE k = "every" -> b - a
       [] k = "weekday" -> Before(b) - Before(a)
       [] k = "holidays" -> Before(b) - Before(a) - Cardinality({ h \in WorkingHols[c] : a <= h /\ h < b })
Worth(c, a, b) == LET n == Business(c, a, b)
                  IN 4 * n + (IF Cals[c].kind = "vol" THEN Cals[c].w ELSE 0) * (b - a - n)
=============================================================================
