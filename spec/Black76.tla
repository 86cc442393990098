------------------------------ MODULE Black76 -------------------------------
(***************************************************************************)
(* Black-76 prices over a grid of forwards, strikes, standard deviations   *)
(* and discount factors (P20).  A state is a grid point; a step raises one *)
(* parameter by one notch, and which way the prices may then move is part  *)
(* of the specification.                                                   *)
(***************************************************************************)
EXTENDS BlackTerms, Json, IOUtils, CSV, TLC

World == JsonDeserialize(IOEnv.WORLD)      \* ascending lists of <<mantissa, exponent>>
VARIABLES f, k, s, d
vars == <<f, k, s, d>>
Init == f \in 1 .. Len(World.f) /\ k \in 1 .. Len(World.k) /\ s \in 1 .. Len(World.s) /\ d \in 1 .. Len(World.d)
RaiseF == f < Len(World.f) /\ f' = f + 1 /\ UNCHANGED <<k, s, d>>
RaiseK == k < Len(World.k) /\ k' = k + 1 /\ UNCHANGED <<f, s, d>>
RaiseS == s < Len(World.s) /\ s' = s + 1 /\ UNCHANGED <<f, k, d>>
RaiseD == d < Len(World.d) /\ d' = d + 1 /\ UNCHANGED <<f, k, s>>
Next == RaiseF \/ RaiseK \/ RaiseS \/ RaiseD
Spec == Init /\ [][Next]_vars

(* Which way each step may move the call and the put. *)
Moves == [f |-> <<"up", "down">>, k |-> <<"down", "up">>, s |-> <<"up", "up">>, d |-> <<"up", "up">>]

Val(p) == Sci(p[1], p[2])
F == Val(World.f[f])
Kx == Val(World.k[k])
S == Val(World.s[s])
D == Val(World.d[d])
IsZeroV(p) == p[1] = 0
Certain == IsZeroV(World.s[s]) \/ IsZeroV(World.f[f]) \/ IsZeroV(World.k[k])
Wanted == ~ (IsZeroV(World.f[f]) /\ IsZeroV(World.k[k]))
CallPrice == IF Certain THEN Intrinsic(D, F, Kx) ELSE BlackCall(D, F, Kx, S)
PutPrice  == IF Certain THEN PutIntrinsic(D, F, Kx) ELSE BlackPut(D, F, Kx, S)

Emit == Wanted => CSVWrite("%1$s", << ToJson([f |-> F, k |-> Kx, s |-> S, d |-> D, at |-> <<f, k, s, d>>,
           certain |-> Certain, call |-> CallPrice, put |-> PutPrice]) >>, IOEnv.OUT)
=============================================================================
