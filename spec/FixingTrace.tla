---------------------------- MODULE FixingTrace -----------------------------
(***************************************************************************)
(* Accepts exactly the recorded histories of a fixing table that the table *)
(* of FixingTable.tla allows.  Here ids, days and values are open-ended.   *)
(* Events: [op |-> "new", known], [op |-> "supply", id, pts, ok],          *)
(* [op |-> "get", id, day, tod, r, v].                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, table, curves, known
vars == <<i, table, curves, known>>

Init == i = 1 /\ table = {} /\ curves = {} /\ known = 0
E == Trace[i]

New == E.op = "new" /\ table' = {} /\ curves' = {} /\ known' = E.known

Duplicated(pts) == \E a, b \in 1..Len(pts) : a # b /\ pts[a][1] = pts[b][1] /\ pts[a][2] = pts[b][2]

Supply == /\ E.op = "supply"
          /\ E.ok = (E.id \notin curves /\ ~ Duplicated(E.pts))
          /\ IF E.ok
             THEN /\ curves' = curves \cup {E.id}
                  /\ table' = table \cup { <<E.id, E.pts[n][1], E.pts[n][2], E.pts[n][3]>> : n \in 1..Len(E.pts) }
             ELSE UNCHANGED <<curves, table>>
          /\ UNCHANGED known

Get == /\ E.op = "get"
       /\ LET hit == { q \in table : q[1] = E.id /\ q[2] = E.day /\ q[3] = E.tod }
          IN IF hit # {} THEN E.r = "value" /\ \E q \in hit : q[4] = E.v
             ELSE IF E.day < known THEN E.r = "error" ELSE E.r = "absent"
       /\ UNCHANGED <<table, curves, known>>

Next == i <= Len(Trace) /\ (New \/ Supply \/ Get) /\ i' = i + 1
Spec == Init /\ [][Next]_vars

Functional == \A p, q \in table : p[1] = q[1] /\ p[2] = q[2] /\ p[3] = q[3] => p[4] = q[4]

Accepted == LET n == TLCGet("stats").diameter - 1
            IN n = Len(Trace) \/ (PrintT(<<"TRACE-REJECTED", n + 1, ToJson(Trace[n + 1])>>) /\ FALSE)
=============================================================================
