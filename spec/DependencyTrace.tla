-------------------------- MODULE DependencyTrace ---------------------------
(***************************************************************************)
(* Judges recorded runs of declaring, pricing and fixing (P08).            *)
(*                                                                         *)
(* Events of a case:                                                       *)
(*   case                                 a new collector                   *)
(*   decl [k, id, d, t, credit]           something is declared to it       *)
(*   list [k, id, d, t, credit]           something it then lists           *)
(*   listed                               the list is complete              *)
(*   ask [k, id, d]                       pricing asks the market for it    *)
(*   read [k, id, d]                      and looks up that date on it      *)
(*   used [id, d, t]                      fixing depended on that fixing     *)
(* with k one of spot, yield, fwd, vol, fix (at day d, time t) and under    *)
(* (forward id is listed under the discount curve credit).                 *)
(*                                                                         *)
(* declared and listed are what was said so far; refused are the events    *)
(* that this specification does not allow, with the reason.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, CSV, IOUtils, TLC

VARIABLES n, declared, listed
vars == <<n, declared, listed>>
Log == ndJsonDeserialize(IOEnv.TRACE)

Item(e) == [k |-> e.k, id |-> e.id, d |-> e.d, t |-> e.t, credit |-> e.credit]
(* whether what is listed covers a use of k, id at day d (time t) *)
Covers(S, k, id, d, t) ==
  \E x \in S : /\ x.k = k /\ x.id = id
               /\ k \in {"yield", "fwd", "vol"} => d <= x.d
               /\ k = "fix" => d = x.d /\ t = x.t

(* a forward brings its spot and its discount curve, and bumps of the curve *)
(* find it                                                                  *)
Implied(x) == {x} \cup IF x.k # "fwd" THEN {} ELSE
  { [x EXCEPT !.k = "yield", !.id = x.credit] }
Complete == \A x \in declared : \A y \in Implied(x) :
  /\ Covers(listed, y.k, y.id, y.d, y.t)
  /\ y.k = "fwd" => \E z \in listed : z.k = "under" /\ z.id = y.id /\ z.credit = y.credit

SameItem(x, y) == /\ x.k = y.k /\ x.id = y.id
                  /\ x.k = "fix" => x.d = y.d /\ x.t = y.t
                  /\ x.k = "under" => x.credit = y.credit

Allowed(e) ==
  CASE e.e = "list"   -> ~ \E x \in listed : SameItem(x, Item(e))
    [] e.e = "listed" -> Complete
    [] e.e \in {"ask", "read"} -> Covers(listed, e.k, e.id, e.d, 0)
    [] e.e = "used"   -> Covers(listed, "fix", e.id, e.d, e.t)
    [] OTHER -> TRUE

Init == n = 0 /\ declared = {} /\ listed = {}
Step ==
  LET e == Log[n + 1] IN
  /\ n < Len(Log)
  /\ n' = n + 1
  /\ declared' = CASE e.e = "case" -> {} [] e.e = "decl" -> declared \cup {Item(e)} [] OTHER -> declared
  /\ listed'   = CASE e.e = "case" -> {} [] e.e = "list" -> listed \cup {Item(e)} [] OTHER -> listed
  /\ Allowed(e) \/ CSVWrite("%1$s", << ToJson([n |-> n + 1, e |-> e]) >>, IOEnv.OUT)
Spec == Init /\ [][Step]_vars
Finished == TLCGet("stats").diameter >= Len(Log)
=============================================================================
