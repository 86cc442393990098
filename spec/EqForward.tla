----------------------------- MODULE EqForward ------------------------------
(***************************************************************************)
(* An equity forward under bumps of its inputs (P12).  The state is an     *)
(* equity of the world with the bumps of rate, borrow and dividends so far.*)
(***************************************************************************)
EXTENDS EquityTerms, FiniteSets, Json, IOUtils, CSV

World == JsonDeserialize(IOEnv.WORLD)
Eqs == World.equities
CONSTANT MaxBumps
CurveBumps == { <<"ann", 100>>, <<"cc", -50>> }
DivBumps == { 1000, -2500 }

VARIABLES w, rst, bst, dst
vars == <<w, rst, bst, dst>>
Init == w \in 1 .. Len(Eqs) /\ rst = <<>> /\ bst = <<>> /\ dst = <<>>
More == Len(rst) + Len(bst) + Len(dst) < MaxBumps
BumpRate   == More /\ \E b \in CurveBumps : rst' = Append(rst, b) /\ UNCHANGED <<w, bst, dst>>
BumpBorrow == More /\ \E b \in CurveBumps : bst' = Append(bst, b) /\ UNCHANGED <<w, rst, dst>>
BumpDivs   == More /\ \E b \in DivBumps : dst' = Append(dst, b) /\ UNCHANGED <<w, rst, bst>>
Next == BumpRate \/ BumpBorrow \/ BumpDivs
Spec == Init /\ [][Next]_vars

RECURSIVE Scale(_)
Scale(st) == IF st = <<>> THEN One ELSE Mul(Add(One, Bp(Head(st))), Scale(Tail(st)))
Eq == Eqs[w]
View == [base |-> Eq.base, spot |-> C(Eq.spot, 100), lag |-> Eq.lag, rate |-> Eq.rate, rst |-> rst,
         borrow |-> Eq.borrow, bst |-> bst, divs |-> Eq.divs, yield |-> Eq.yield, yst |-> <<>>, dbump |-> Scale(dst)]
LastCash == LET xs == { Eq.divs[k].ex : k \in { j \in 1 .. Len(Eq.divs) : Eq.divs[j].cash # 0 } }
            IN IF xs = {} THEN 0 ELSE CHOOSE x \in xs : \A y \in xs : y <= x
(* A dividend yield may not start before the last dividend has gone ex. *)
Overlaps == /\ Eq.yield.kind # "zero" /\ Len(Eq.divs) > 0
            /\ Eq.divs[Len(Eq.divs)].ex > Eq.yield.base

Emit == CSVWrite("%1$s", << ToJson([w |-> w, rst |-> rst, bst |-> bst, dst |-> dst, ok |-> ~ Overlaps,
   ref |-> RefSpot(View),
   q |-> IF Overlaps THEN <<>> ELSE [k \in 1 .. Len(Eq.dates) |->
      LET d == Eq.dates[k] IN
      [d |-> d,
       range |-> IF d <= Eq.hwm THEN "in" ELSE IF d > LastCash THEN "out" ELSE "may",
       fwd |-> ForwardSigned(View, d, -1), pinned |-> ForwardSigned(View, d, 1),
       sum |-> DivSum(View, d), amounts |-> DivAmounts(View, d), after |-> CashAfter(View, d)]]]) >>, IOEnv.OUT)
=============================================================================
