----------------------------- MODULE VolSurface -----------------------------
(***************************************************************************)
(* A volatility surface under bumps and the passage of time (P14).         *)
(***************************************************************************)
EXTENDS VolTerms

CONSTANT MaxOps
VARIABLES s, stack
vars == <<s, stack>>
Sf == World.surfaces[s]
Init == s \in 1 .. Len(World.surfaces) /\ stack = <<>>
Last0 == LET ts == { stack[a].n : a \in { b \in 1 .. Len(stack) : stack[b].o \in {"ce", "re"} } }
         IN IF ts = {} THEN 0 ELSE CHOOSE x \in ts : \A y \in ts : y <= x
Operate == /\ Len(stack) < MaxOps
           /\ \E o \in Range(World.ops) :
                /\ o.o \in {"ce", "re"} => o.n >= Last0          \* time does not run backwards
                /\ stack' = Append(stack, o)
           /\ UNCHANGED s
Next == Operate
Spec == Init /\ [][Next]_vars

(* Of the specification: replacing forgets the past, and valuation moves on. *)
Forgets == Len(stack) > 0 /\ stack[Len(stack)].o = "rep" => ~ HasForward(Sf, stack)
MovesOn == BaseOf(Sf, stack)[1] >= Sf.base

Empty == Sf.kind = "pillar" /\ Sf.pillars = <<>>
Emit == CSVWrite("%1$s", << ToJson([s |-> s, stack |-> stack, base |-> BaseOf(Sf, stack), cond |-> BuildConditions(Sf), defs |-> Definitions(Sf),
   has |-> HasForward(Sf, stack),
   q |-> IF Empty THEN {} ELSE { [d |-> m.d, f |-> m.f, disp |-> Displacement(Sf, stack, m.d), k |-> k, r |-> VolAt(Sf, stack, m.d, m.f, Cents(k))]
            : m \in Range(Sf.dates), k \in Range(Sf.strikes) },
   v |-> IF Empty THEN {} ELSE { [d |-> p.d, f |-> p.f, e |-> p.e, g |-> p.g, k |-> p.k, r |-> ForwardVariance(Sf, stack, p.d, p.f, p.e, p.g, Cents(p.k))]
            : p \in Range(Sf.pairs) }]) >>, IOEnv.OUT)
=============================================================================
