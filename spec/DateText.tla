------------------------------ MODULE DateText ------------------------------
(***************************************************************************)
(* Text of dates and moments of the day.                                   *)
(*                                                                         *)
(* A text is typed one component at a time; components are joined by "-".  *)
(* Every text reachable in at most MaxComps components is classified:      *)
(*   accept  - it is a date of the form YYYY-MM-DD: must read as that date *)
(*   lenient - numeric components that are not zero-padded: may be         *)
(*             rejected, but if accepted must be the date they name        *)
(*   reject  - too few or too many components, a component that is not a   *)
(*             number, a day that does not exist or one outside the        *)
(*             supported range: must be an error (not a crash, and not     *)
(*             some other date)                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, CSV, IOUtils, TLC

CONSTANTS MaxComps
VARIABLES comps, phase
vars == <<comps, phase>>

(* A component: its characters, its value (-1 if it is not a number) and   *)
(* its width. *)
C(t, v, wd) == [t |-> t, v |-> v, wd |-> wd]
Comps == { C("2018", 2018, 4), C("1968", 1968, 4), C("2168", 2168, 4), C("0005", 5, 4),
           C("9999", 9999, 4), C("1967", 1967, 4),
           C("05", 5, 2), C("02", 2, 2), C("12", 12, 2), C("28", 28, 2), C("7", 7, 1),
           C("00", 0, 2), C("13", 13, 2), C("29", 29, 2), C("31", 31, 2), C("2020", 2020, 4), C("2100", 2100, 4),
           C("", -1, 0), C("x", -1, 1), C("1x", -1, 2), C(" 5", -1, 2), C("5 ", -1, 2),
           C("0x1F", -1, 4), C("1.5", -1, 3), C("2018/05/03", -1, 10), C("99999999999", -1, 11),
           C("03T00:00", -1, 8), C("2000000", 2000000, 7) }

MonthLen(yr, mo) ==
  CASE mo \in {4, 6, 9, 11} -> 30
    [] mo = 2 -> IF yr % 4 = 0 /\ (yr % 100 # 0 \/ yr % 400 = 0) THEN 29 ELSE 28
    [] OTHER -> 31

(* The supported range: 1968-05-24 to 2168-04-03. *)
Supported(yr, mo, da) ==
  /\ yr >= 1968
  /\ yr > 1968 \/ mo > 5 \/ (mo = 5 /\ da >= 24)
  /\ yr < 2168 \/ (yr = 2168 /\ (mo < 4 \/ (mo = 4 /\ da <= 3)))

Exists(cs) == cs[2].v \in 1..12 /\ cs[3].v \in 1..MonthLen(cs[1].v, cs[2].v)

Class(cs) ==
  IF Len(cs) # 3 \/ \E i \in 1..Len(cs) : cs[i].v = -1 THEN "reject"
  ELSE IF ~ Exists(cs) \/ ~ Supported(cs[1].v, cs[2].v, cs[3].v) THEN "reject"
  ELSE IF cs[1].wd = 4 /\ cs[2].wd = 2 /\ cs[3].wd = 2 THEN "accept"
  ELSE "lenient"

RECURSIVE Join(_)
Join(cs) == IF cs = <<>> THEN "" ELSE
            IF Len(cs) = 1 THEN cs[1].t ELSE cs[1].t \o "-" \o Join(Tail(cs))

Init == comps = <<>> /\ phase = "typing"
Type(c) == phase = "typing" /\ Len(comps) < MaxComps /\ comps' = Append(comps, c) /\ UNCHANGED phase
Next == \E c \in Comps : Type(c)
Spec == Init /\ [][Next]_vars

(* The classes are exclusive, and only three components can be accepted. *)
Sane == Class(comps) \in {"accept", "lenient"} => Len(comps) = 3 /\ Exists(comps)

Emit ==    LET c == Class(comps)
               has == c \in {"accept", "lenient"} IN
           CSVWrite("%1$s", <<ToJson([text |-> Join(comps), class |-> c,
              y |-> IF has THEN comps[1].v ELSE 0,
              m |-> IF has THEN comps[2].v ELSE 0,
              d |-> IF has THEN comps[3].v ELSE 0])>>, IOEnv.OUT)
(* Longer texts only grow from texts that would otherwise be dates. *)
Bound == Len(comps) < 3 \/ Class(comps) \in {"accept", "lenient"}

----------------------------------------------------------------------------
(* Moments: the order of a day is open, EDSP, close; dates dominate.       *)
Tods == <<"Open", "EDSP", "Close">>
Days == {17000, 17001, 20000}
Cmp(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
Lex(a, b, p, q) == IF a # b THEN Cmp(a, b) ELSE Cmp(p, q)
MomentTable == { [kind |-> "datetime", a |-> a, p |-> Tods[p], b |-> b, q |-> Tods[q], cmp |-> Lex(a, b, p, q)]
                 : a \in Days, b \in Days, p \in 1..3, q \in 1..3 }
(* Day fractions in eighths, exact in binary. *)
FractionTable == { [kind |-> "fraction", a |-> a, p |-> p, b |-> b, q |-> q, cmp |-> Lex(a, b, p, q),
                    diff8 |-> 8 * (b - a) + q - p]
                 : a \in Days, b \in Days, p \in {0, 1, 4, 7}, q \in {0, 1, 4, 7} }
EmitTables == /\ \A r \in MomentTable : CSVWrite("%1$s", <<ToJson(r)>>, IOEnv.OUT2)
              /\ \A r \in FractionTable : CSVWrite("%1$s", <<ToJson(r)>>, IOEnv.OUT2)
ASSUME EmitTables
(* The order on moments is total and antisymmetric. *)
ASSUME \A r \in MomentTable : \E s \in MomentTable :
          s.a = r.b /\ s.b = r.a /\ s.p = r.q /\ s.q = r.p /\ s.cmp = -r.cmp
=============================================================================
