------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Interpolation through points with integer abscissae (P15).              *)
(*                                                                         *)
(* The state is a list of points being built up in any order, the two      *)
(* extrapolation rules, and the kind of interpolator.  A list is usable    *)
(* when its abscissae strictly increase.  The spline is the unique         *)
(* piecewise cubic with continuous first and second derivatives whose ends *)
(* have zero second derivative (natural) or zero slope (any other rule);   *)
(* it is found here in terms of its slopes at the points: in exact         *)
(* rationals for short lists, where the definition is an invariant, and as *)
(* terms for long ones, where the definition goes with the answers as a    *)
(* list of terms that must come to nothing.                                *)
(***************************************************************************)
EXTENDS Terms, Rat, FiniteSets, Json, IOUtils, CSV, TLC

World == JsonDeserialize(IOEnv.WORLD)
Sets == World.sets              \* each: [x |-> abscissae, y |-> ordinates (integers), hole |-> which abscissa is not a number, or 0, named |-> whether slopes are terms]
Rules == {"Flat", "Natural", "NotANumber", "Zero", "Throw"}

VARIABLES ps, left, right
vars == <<ps, left, right>>

Xs == Sets[ps].x
Ys == Sets[ps].y
N == Len(Xs)
Usable == N >= 1 /\ Sets[ps].hole = 0 /\ \A a \in 1 .. N - 1 : Xs[a] < Xs[a + 1]
SplineUsable == Usable /\ N >= 2
(* too long, or too awkward, for exact rationals in TLC's integers: slopes are then named terms *)
Long == Sets[ps].named

Init == ps \in 1 .. Len(Sets) /\ left \in Rules /\ right \in Rules
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Slopes of the spline, exactly.                                          *)
(*   h(a) = Xs[a+1]-Xs[a],  s(a) = (Ys[a+1]-Ys[a])/h(a)                    *)
(*   inner: k(a-1)/h(a-1) + 2k(a)(1/h(a-1)+1/h(a)) + k(a+1)/h(a)           *)
(*          = 3 (s(a-1)/h(a-1) + s(a)/h(a))                                *)
(*   natural ends: 2k(1)+k(2) = 3 s(1), k(N-1)+2k(N) = 3 s(N-1)            *)
(* Gaussian elimination from the left: k(a) = P(a) - Q(a) k(a+1).          *)
H(a) == Xs[a + 1] - Xs[a]
S(a) == R(Ys[a + 1] - Ys[a], H(a))
NaturalEnd(r) == r = "Natural"
Diag(a) == RMul(RInt(2), RAdd(R(1, H(a - 1)), R(1, H(a))))
Rhs(a) == RMul(RInt(3), RAdd(RDiv(S(a - 1), RInt(H(a - 1))), RDiv(S(a), RInt(H(a)))))

RECURSIVE PQ(_)
PQ(a) == IF a = 1 THEN IF NaturalEnd(left) THEN <<RMul(R(3, 2), S(1)), R(1, 2)>> ELSE <<RInt(0), RInt(0)>>
         ELSE LET pq == PQ(a - 1)
                  den == RSub(Diag(a), RDiv(pq[2], RInt(H(a - 1))))
              IN << RDiv(RSub(Rhs(a), RDiv(pq[1], RInt(H(a - 1)))), den), RDiv(R(1, H(a)), den) >>

RECURSIVE SlopeFrom(_)          \* <<k(a), ..., k(N)>>
SlopeFrom(a) ==
  IF a = N
  THEN << IF NaturalEnd(right)
          THEN LET pq == PQ(N - 1)     \* (P - Q k) + 2 k = 3 s
               IN RDiv(RSub(RMul(RInt(3), S(N - 1)), pq[1]), RSub(RInt(2), pq[2]))
          ELSE RInt(0) >>
  ELSE LET rest == SlopeFrom(a + 1)
           pq == PQ(a)
       IN << RSub(pq[1], RMul(pq[2], rest[1])) >> \o rest
Slopes == SlopeFrom(1)

(* Second derivative of piece a at its left and right end. *)
D2Left(k, a) == RDiv(RSub(RSub(RMul(RInt(6), S(a)), RMul(RInt(4), k[a])), RMul(RInt(2), k[a + 1])), RInt(H(a)))
D2Right(k, a) == RDiv(RAdd(RSub(RMul(RInt(2), k[a]), RMul(RInt(6), S(a))), RMul(RInt(4), k[a + 1])), RInt(H(a)))

SplineDefinition == SplineUsable /\ ~ Long =>
  LET k == Slopes IN
    /\ \A a \in 1 .. N - 2 : D2Right(k, a) = D2Left(k, a + 1)
    /\ IF NaturalEnd(left) THEN D2Left(k, 1) = RInt(0) ELSE k[1] = RInt(0)
    /\ IF NaturalEnd(right) THEN D2Right(k, N - 1) = RInt(0) ELSE k[N] = RInt(0)

(* The same for a long list: the elimination as a list of named terms.     *)
LOCAL F(r) == C(r[1], r[2])
P(a) == Ref("P" \o ToString(a))
Q(a) == Ref("Q" \o ToString(a))
Slope(a) == Ref("k" \o ToString(a))
Down(a) == IF a = 1 THEN << <<"P1", IF NaturalEnd(left) THEN F(RMul(R(3, 2), S(1))) ELSE Zero>>, <<"Q1", IF NaturalEnd(left) THEN C(1, 2) ELSE Zero>> >>
           ELSE << <<"d" \o ToString(a), Sub(F(Diag(a)), Div(Q(a - 1), K(H(a - 1))))>>,
                   <<"P" \o ToString(a), Div(Sub(F(Rhs(a)), Div(P(a - 1), K(H(a - 1)))), Ref("d" \o ToString(a)))>>,
                   <<"Q" \o ToString(a), Div(C(1, H(a)), Ref("d" \o ToString(a)))>> >>
Last == IF NaturalEnd(right) THEN Div(Sub(F(RMul(RInt(3), S(N - 1))), P(N - 1)), Sub(K(2), Q(N - 1))) ELSE Zero
RECURSIVE Downs(_)
Downs(a) == IF a = N THEN <<>> ELSE Down(a) \o Downs(a + 1)
RECURSIVE Ups(_)
Ups(a) == IF a = 0 THEN <<>> ELSE << <<"k" \o ToString(a), Sub(P(a), Mul(Q(a), Slope(a + 1)))>> >> \o Ups(a - 1)
Lets == Downs(1) \o << <<"k" \o ToString(N), Last>> >> \o Ups(N - 1)
E2Left(a) == Div(Sub(Sub(F(RMul(RInt(6), S(a))), Mul(K(4), Slope(a))), Mul(K(2), Slope(a + 1))), K(H(a)))
E2Right(a) == Div(Add(Sub(Mul(K(2), Slope(a)), F(RMul(RInt(6), S(a)))), Mul(K(4), Slope(a + 1))), K(H(a)))
Nothings == { Sub(E2Right(a), E2Left(a + 1)) : a \in 1 .. N - 2 }
            \cup { IF NaturalEnd(left) THEN E2Left(1) ELSE Slope(1), IF NaturalEnd(right) THEN E2Right(N - 1) ELSE Slope(N) }

----------------------------------------------------------------------------
(* Queries at quarter points q/4, from well left to well right.            *)
Q4 == LET lo == CHOOSE x \in { Xs[a] : a \in 1 .. N } : \A a \in 1 .. N : x <= Xs[a]
          hi == CHOOSE x \in { Xs[a] : a \in 1 .. N } : \A a \in 1 .. N : x >= Xs[a]
          w == (hi - lo) \div 8 + 1
          all == { 4 * (lo - 2 * w) + b * w : b \in 0 .. (16 + 4 * ((hi - lo) \div w)) }
      IN { z \in all : z <= 4 * (hi + 2 * w) } \cup { 4 * Xs[a] : a \in 1 .. N } \cup {4 * hi + 1, 4 * lo - 1, 4 * hi - 1, 4 * lo + 1}

Number(t) == [r |-> "num", v |-> t]
Fail == [r |-> "err", v |-> Zero]
Nan == [r |-> "nan", v |-> Zero]

Outside(rule, edge, natural) ==
  CASE rule = "Flat" -> Number(K(edge))
    [] rule = "Zero" -> Number(Zero)
    [] rule = "NotANumber" -> Nan
    [] rule = "Throw" -> Fail
    [] rule = "Natural" -> natural

(* the line through points a and a+1, at q/4 *)
Line(a, q) == Number(Lerp(K(Ys[a]), K(Ys[a + 1]), q - 4 * Xs[a], 4 * H(a)))

(* the cubic of piece a, at q/4, in Hermite form *)
Cubic(k, a, q) ==
  LET t == C(q - 4 * Xs[a], 4 * H(a))
      u == C(4 * Xs[a + 1] - q, 4 * H(a))
      hk(z) == IF Long THEN Mul(K(H(a)), Slope(z)) ELSE C(H(a) * k[z][1], k[z][2])
  IN Number(Add(Add(Mul(Mul(Mul(u, u), Add(One, Mul(K(2), t))), K(Ys[a])),
                    Mul(Mul(Mul(t, t), Add(One, Mul(K(2), u))), K(Ys[a + 1]))),
                Mul(Mul(t, u), Sub(Mul(u, hk(a)), Mul(t, hk(a + 1))))))

Piece(q) == CHOOSE a \in 1 .. N - 1 : 4 * Xs[a] < q /\ q < 4 * Xs[a + 1]
At(q) == CHOOSE a \in 1 .. N : 4 * Xs[a] = q

LinearAt(q) ==
  IF \E a \in 1 .. N : 4 * Xs[a] = q THEN Number(K(Ys[At(q)]))
  ELSE IF q < 4 * Xs[1] THEN Outside(left, Ys[1], IF N > 1 THEN Line(1, q) ELSE Fail)
  ELSE IF q > 4 * Xs[N] THEN Outside(right, Ys[N], IF N > 1 THEN Line(N - 1, q) ELSE Fail)
  ELSE Line(Piece(q), q)

SplineAt(k, q) ==
  IF \E a \in 1 .. N : 4 * Xs[a] = q THEN Number(K(Ys[At(q)]))
  ELSE IF q < 4 * Xs[1] THEN Outside(left, Ys[1], Cubic(k, 1, q))
  ELSE IF q > 4 * Xs[N] THEN Outside(right, Ys[N], Cubic(k, N - 1, q))
  ELSE Cubic(k, Piece(q), q)

(* The rule on one side never matters on the other or inside. *)
Emit == CSVWrite("%1$s", << ToJson(
   IF Usable
   THEN LET k == IF SplineUsable /\ ~ Long THEN Slopes ELSE <<>>
        IN [ok |-> TRUE, spline_ok |-> SplineUsable, x |-> Xs, y |-> Ys, hole |-> Sets[ps].hole, left |-> left, right |-> right,
            lets |-> IF Long THEN Lets ELSE <<>>, nothing |-> IF Long THEN Nothings ELSE {},
            q |-> { <<q, LinearAt(q), IF SplineUsable THEN SplineAt(k, q) ELSE Fail>> : q \in Q4 }]
   ELSE [ok |-> FALSE, spline_ok |-> FALSE, x |-> Xs, y |-> Ys, hole |-> Sets[ps].hole, left |-> left, right |-> right, lets |-> <<>>, nothing |-> {}, q |-> {}]) >>, IOEnv.OUT)
=============================================================================
