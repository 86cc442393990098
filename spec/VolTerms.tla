------------------------------ MODULE VolTerms ------------------------------
(***************************************************************************)
(* Volatility surfaces as terms.  A surface is a record                    *)
(*   [kind, cal, base, bf, vol (bp), pillars, fwd, divs, assume, tag]      *)
(* kind "flat" uses vol; kind "pillar" has pillars [d, f, x (strikes in    *)
(* cents), y (vols in bp)], a smile with no x being flat at y[1], in date  *)
(* order, a forward fwd and remaining cash divs, each [x, y (cents), left, *)
(* right].  Moments are a day and a fraction of it in twentieths.  The tag *)
(* tells the definitions of different surfaces apart.                      *)
(*                                                                         *)
(* On top of a surface stands a stack of operations, oldest first:          *)
(*   par n        vols move by n bp, not below zero                         *)
(*   ts n m       likewise, by n bp over the root of vol time, the time     *)
(*                taken to be at least m/100                                *)
(*   rep n        replaced by a flat surface of n bp                        *)
(*   unk          replaced by a flat surface of a vol named "implied"       *)
(*   ce n / re n  valuation moves to n days after the original base date,   *)
(*                vols staying with their expiry / rolling with the date    *)
(*   sd n         the smile follows the forward, which becomes n cents      *)
(*                (on every date)                                          *)
(*   sf view      likewise, the forward being that of an equity             *)
(* A result is a set of possible answers [v, t, c]: vol, vol time, and the  *)
(* conditions a <= b under which there is an answer rather than an error.   *)
(* More than one is possible only where a fractional step of a calendar is  *)
(* equally near to two days.                                               *)
(***************************************************************************)
EXTENDS EquityTerms, Calendar

Cents(n) == C(n, 100)

LOCAL Range1(s) == { s[a] : a \in 1 .. Len(s) }

----------------------------------------------------------------------------
(* Vol time, from (a, f) to (b, g): weighted days over the basis; none if   *)
(* the days run backwards.                                                 *)
Count80(c, a, f, b, g) ==
  IF a > b THEN 0 ELSE 20 * Worth(c, a, b) - f * Weight(c, a) + g * Weight(c, b)
YearFrac(c, a, f, b, g) == C(Count80(c, a, f, b, g), 20 * Basis4(c))
AtOrBefore(a, f, b, g) == a < b \/ (a = b /\ f <= g)

(* Days nearest to being n/80 business days away from d (n >= 0), forwards  *)
(* or back.  On a calendar whose holidays weigh nothing: a whole number of  *)
(* business days, having slipped off any holiday in that direction.         *)
Weightless(c) == Cals[c].kind # "vol" \/ Cals[c].w = 0
RECURSIVE SlipOff(_, _, _)
SlipOff(c, d, s) == IF IsHoliday(c, d) THEN SlipOff(c, d + s, s) ELSE d
RECURSIVE Hop(_, _, _, _)
Hop(c, d, n, s) == IF n = 0 THEN d ELSE Hop(c, SlipOff(c, d + s, s), n - 1, s)
LOCAL Wholes(n) == LET q == n \div 80 r == n % 80
                   IN IF r < 40 THEN {q} ELSE IF r > 40 THEN {q + 1} ELSE {q, q + 1}
RECURSIVE Walk80(_, _, _, _, _)
Walk80(c, d, n, s, cum) ==
  LET nc == cum + 20 * Weight(c, d)
  IN IF n = cum THEN {d}
     ELSE IF nc < n THEN Walk80(c, d + s, n, s, nc)
     ELSE IF n - cum < nc - n THEN {d} ELSE IF n - cum > nc - n THEN {d + s} ELSE {d, d + s}
StepBy(c, d, n, s) ==
  IF Weightless(c) THEN { Hop(c, SlipOff(c, d, s), k, s) : k \in Wholes(n) }
  ELSE Walk80(c, d, n, s, 0)

----------------------------------------------------------------------------
(* Smiles and straight lines. *)
LineAt(l, d) ==
  LET N == Len(l.x)
      seg(a) == Lerp(Cents(l.y[a]), Cents(l.y[a + 1]), d - l.x[a], l.x[a + 1] - l.x[a])
      out(rule, edge, a) == CASE rule = "Flat" -> Cents(edge) [] rule = "Zero" -> Zero [] rule = "Natural" -> seg(a)
  IN IF \E a \in 1 .. N : l.x[a] = d THEN Cents(l.y[CHOOSE a \in 1 .. N : l.x[a] = d])
     ELSE IF d < l.x[1] THEN out(l.left, l.y[1], 1)
     ELSE IF d > l.x[N] THEN out(l.right, l.y[N], N - 1)
     ELSE seg(CHOOSE a \in 1 .. N - 1 : l.x[a] < d /\ d < l.x[a + 1])

(* Natural cubic spline through (x, y), at a term: second derivatives M by  *)
(* elimination, then the piece the argument falls in (end pieces continue). *)
LOCAL HH(m, a) == Cents(m.x[a + 1] - m.x[a])
LOCAL SS(m, a) == Div(Sub(Bp(m.y[a + 1]), Bp(m.y[a])), HH(m, a))
LOCAL Nm(s, a) == s \o ToString(a)
LOCAL Pt(a) == IF a = 1 THEN Zero ELSE Ref(Nm("P", a))
LOCAL Qt(a) == IF a = 1 THEN Zero ELSE Ref(Nm("Q", a))
LOCAL Mt(m, a) == IF a = 1 \/ a = Len(m.x) THEN Zero ELSE Ref(Nm("M", a))
RECURSIVE Back(_, _, _)
Back(m, a, body) == IF a = 1 THEN body
                    ELSE Let(Nm("M", a), Sub(Pt(a), Mul(Qt(a), Mt(m, a + 1))), Back(m, a - 1, body))
RECURSIVE Elim(_, _, _)
Elim(m, a, body) ==
  IF a = Len(m.x) THEN Back(m, Len(m.x) - 1, body)
  ELSE Let("D", Sub(Mul(K(2), Add(HH(m, a - 1), HH(m, a))), Mul(HH(m, a - 1), Qt(a - 1))),
       Let(Nm("P", a), Div(Sub(Mul(K(6), Sub(SS(m, a), SS(m, a - 1))), Mul(HH(m, a - 1), Pt(a - 1))), Ref("D")),
       Let(Nm("Q", a), Div(HH(m, a), Ref("D")), Elim(m, a + 1, body))))
LOCAL Piece(m, a) ==
  LET t == Div(Sub(Ref("K"), Cents(m.x[a])), HH(m, a))
      cube(z) == Sub(Mul(z, Mul(z, z)), z)
  IN Let("u", t, Let("w", Sub(One, Ref("u")),
       Add(Add(Mul(Ref("w"), Bp(m.y[a])), Mul(Ref("u"), Bp(m.y[a + 1]))),
           Mul(Mul(Sq(HH(m, a)), C(1, 6)), Add(Mul(cube(Ref("w")), Mt(m, a)), Mul(cube(Ref("u")), Mt(m, a + 1)))))))
RECURSIVE Pieces(_, _)
Pieces(m, a) == IF a = 1 THEN Piece(m, 1) ELSE IfGe(Ref("K"), Cents(m.x[a]), Piece(m, a), Pieces(m, a - 1))
LOCAL SmileBody(m) == IF m.x = <<>> THEN Bp(m.y[1]) ELSE Elim(m, 2, Pieces(m, Len(m.x) - 1))

----------------------------------------------------------------------------
(* The bare surface. *)
LOCAL PTime(sf, a) == YearFrac(sf.cal, sf.base, sf.bf, sf.pillars[a].d, sf.pillars[a].f)
LOCAL PCount(sf, a) == Count80(sf.cal, sf.base, sf.bf, sf.pillars[a].d, sf.pillars[a].f)
LOCAL PFwd(sf, a) == LineAt(sf.fwd, sf.pillars[a].d)
(* definitions that go with every term of the surface: the smiles, and the  *)
(* at the money variances of the pillars                                   *)
LOCAL Smile(sf, a, k) == Call(Nm(sf.tag \o "smile", a), k)
LOCAL PVar(sf, a) == Call(Nm(sf.tag \o "atm", a), Zero)
Definitions(sf) == IF sf.kind = "flat" THEN <<>> ELSE
  [a \in 1 .. Len(sf.pillars) |-> [n |-> Nm(sf.tag \o "smile", a), p |-> "K", b |-> SmileBody(sf.pillars[a])]] \o
  [a \in 1 .. Len(sf.pillars) |-> [n |-> Nm(sf.tag \o "atm", a), p |-> "K", b |-> Mul(PTime(sf, a), Sq(Smile(sf, a, PFwd(sf, a))))]]
LOCAL PillarAt(sf, d, f) == { a \in 1 .. Len(sf.pillars) : sf.pillars[a].d = d /\ sf.pillars[a].f = f }
LOCAL PillarsBefore(sf, d, f) == { a \in 1 .. Len(sf.pillars) : AtOrBefore(sf.pillars[a].d, sf.pillars[a].f, d, f) }

(* Beyond the pillars: the smile of the nearest one, at the strike the same *)
(* number of root-vol-times from the forward; at the money when no time has *)
(* passed.                                                                 *)
LOCAL Beyond(sf, a, d, f, k) ==
  LET t == Count80(sf.cal, sf.base, sf.bf, d, f)
      norm == Div(Ln(Div(k, LineAt(sf.fwd, d))), Sqrt(YearFrac(sf.cal, sf.base, sf.bf, d, f)))
  IN Smile(sf, a, IF t <= 0 THEN PFwd(sf, a)
                             ELSE Mul(Exp(Mul(norm, Sqrt(PTime(sf, a)))), PFwd(sf, a)))
(* Between pillars a and b: variance is linear in vol time along strikes    *)
(* equally many standard deviations from the forward.                       *)
LOCAL Between(sf, a, b, d, f, k) ==
  LET n == Count80(sf.cal, sf.base, sf.bf, d, f)
      t == YearFrac(sf.cal, sf.base, sf.bf, d, f)
      w == PCount(sf, b) - PCount(sf, a)
      along(x, y) == IF w = 0 THEN x ELSE Lerp(x, y, n - PCount(sf, a), w)
      sd == Sqrt(along(PVar(sf, a), PVar(sf, b)))
      (* an at the money variance of zero everywhere leaves the forward *)
      shift(z) == Mul(Exp(Mul(Div(Ln(Div(k, LineAt(sf.fwd, d))), sd), Sqrt(PVar(sf, z)))), PFwd(sf, z))
      var(z) == Mul(PTime(sf, z), Sq(Smile(sf, z, shift(z))))
  IN IF n <= 0 THEN [v |-> Smile(sf, a, PFwd(sf, a)), t |-> t, c |-> <<>>] ELSE
     [v |-> Let("va", var(a), Let("vb", var(b), Sqrt(Div(along(Ref("va"), Ref("vb")), t)))), t |-> t, c |-> << <<var(a), var(b)>> >>]

Bare(sf, d, f, k) ==
  LET t == YearFrac(sf.cal, sf.base, sf.bf, d, f) IN
  IF sf.kind = "flat" THEN [v |-> Bp(sf.vol), t |-> t, c |-> <<>>]
  ELSE LET N == Len(sf.pillars)
           at == PillarAt(sf, d, f)
           n == Cardinality(PillarsBefore(sf, d, f))
       IN IF at # {} THEN LET a == CHOOSE z \in at : TRUE IN [v |-> Smile(sf, a, k), t |-> t, c |-> <<>>]
          ELSE IF n = 0 THEN [v |-> Beyond(sf, 1, d, f, k), t |-> t, c |-> <<>>]
          ELSE IF n = N THEN [v |-> Beyond(sf, N, d, f, k), t |-> t, c |-> <<>>]
          ELSE Between(sf, n, n + 1, d, f, k)

(* A pillar surface must have pillars, at the forwards of which variance    *)
(* does not go down from pillar to pillar (nor start below zero).           *)
BuildConditions(sf) == IF sf.kind = "flat" THEN <<>>
  ELSE [a \in 1 .. Len(sf.pillars) |-> <<IF a = 1 THEN Zero ELSE PVar(sf, a - 1), PVar(sf, a)>>]

----------------------------------------------------------------------------
(* Operations. *)
LOCAL Front(s) == SubSeq(s, 1, Len(s) - 1)
LOCAL Lst(s) == s[Len(s)]
(* where the surface is valued from: <<day, fraction>> *)
RECURSIVE BaseOf(_, _)
BaseOf(sf, st) ==
  IF st = <<>> THEN <<sf.base, sf.bf>>
  ELSE LET b == BaseOf(sf, Front(st)) o == Lst(st)
       IN IF o.o \in {"ce", "re"} /\ Count80(sf.cal, b[1], b[2], sf.base + o.n, 0) # 0 /\ sf.base + o.n # b[1]
          THEN <<sf.base + o.n, 0>> ELSE b
RECURSIVE HasForward(_, _)
HasForward(sf, st) == IF st = <<>> THEN sf.kind = "pillar" ELSE IF Lst(st).o \in {"rep", "unk"} THEN FALSE ELSE HasForward(sf, Front(st))
RECURSIVE ForwardAt(_, _, _)
ForwardAt(sf, st, d) ==
  IF st = <<>> THEN LineAt(sf.fwd, d)
  ELSE IF Lst(st).o = "sd" THEN Cents(Lst(st).n)
  ELSE IF Lst(st).o = "sf" THEN ForwardSigned(Lst(st).view, d, -1) ELSE ForwardAt(sf, Front(st), d)

LOCAL Size(o) == IF "d" \in DOMAIN o THEN C(o.n, o.d) ELSE Bp(o.n)   \* basis points, or a fraction
RECURSIVE VolAt(_, _, _, _, _)
VolAt(sf, st, d, f, k) ==
  IF st = <<>> THEN { Bare(sf, d, f, k) }
  ELSE LET o == Lst(st)
           in == Front(st)
           b == BaseOf(sf, in)
           new == BaseOf(sf, st)
           gap == Count80(sf.cal, b[1], b[2], new[1], new[2])
       IN CASE o.o = "par" -> { [v |-> Max2(Add(x.v, Size(o)), Zero), t |-> x.t, c |-> x.c] : x \in VolAt(sf, in, d, f, k) }
            [] o.o = "ts"  -> { [v |-> Max2(Add(x.v, Div(Size(o), Sqrt(Max2(x.t, C(o.m, 100))))), Zero), t |-> x.t, c |-> x.c]
                                : x \in VolAt(sf, in, d, f, k) }
            [] o.o \in {"rep", "unk"} -> { [v |-> IF o.o = "unk" THEN Ref("implied") ELSE Bp(o.n), t |-> YearFrac(sf.cal, b[1], b[2], d, f), c |-> <<>>] }
            [] o.o = "ce"  -> IF new = b THEN VolAt(sf, in, d, f, k)
                              ELSE { [v |-> x.v, t |-> Max2(Sub(x.t, YearFrac(sf.cal, b[1], b[2], new[1], new[2])), Zero), c |-> x.c]
                                     : x \in VolAt(sf, in, d, f, k) }
            [] o.o = "re"  -> IF new = b THEN VolAt(sf, in, d, f, k)
                              ELSE { [v |-> x.v, t |-> Max2(x.t, Zero), c |-> x.c] : x \in
                                     UNION { VolAt(sf, in, e, f, k) : e \in
                                        IF gap > 0 THEN StepBy(sf.cal, d, gap, -1) ELSE StepBy(sf.cal, d, -gap, 1) } }
            [] o.o \in {"sd", "sf"} -> IF HasForward(sf, in)
                              THEN VolAt(sf, in, d, f, Mul(k, Div(ForwardAt(sf, in, d), ForwardAt(sf, st, d))))
                              ELSE VolAt(sf, in, d, f, k)

Variance(x) == Mul(x.t, Sq(x.v))

(* Variance between two moments.  With a forward: the smile of as long an   *)
(* option starting now, moved to the level of the at the forward variance   *)
(* between the moments.                                                    *)
ForwardVariance(sf, st, d, f, e, g, k) ==
  LET b == BaseOf(sf, st) IN
  IF AtOrBefore(d, f, b[1], b[2]) THEN { [v |-> Variance(x), c |-> x.c] : x \in VolAt(sf, st, e, g, k) }
  ELSE IF HasForward(sf, st)
  THEN LET n == Count80(sf.cal, d, f, e, g)
           (* whole days are stepped, but not beyond the later of the moments *)
           days == IF n >= 0 THEN { IF s > e THEN e ELSE s : s \in StepBy(sf.cal, b[1], n, 1) } ELSE {}
       IN { LET up == q[2] lo == q[1] sm == q[3] atm == q[4]
                level == Sub(Variance(up), Variance(lo))
                all == Add(Sub(Variance(sm), Variance(atm)), level)
            IN [v |-> all, c |-> lo.c \o up.c \o sm.c \o atm.c \o << <<Zero, level>>, <<Zero, all>> >>]
            : q \in UNION { VolAt(sf, st, d, f, ForwardAt(sf, st, d)) \X VolAt(sf, st, e, g, ForwardAt(sf, st, e))
                     \X VolAt(sf, st, s, g, k) \X VolAt(sf, st, s, g, ForwardAt(sf, st, s)) : s \in days } }
  ELSE { [v |-> Sub(Variance(q[2]), Variance(q[1])), c |-> q[1].c \o q[2].c \o << <<Variance(q[1]), Variance(q[2])>> >>]
         : q \in VolAt(sf, st, d, f, k) \X VolAt(sf, st, e, g, k) }

(* How far the lognormal is displaced: <<"err">> or <<"num", term>>.        *)
RECURSIVE Displacement(_, _, _)
Displacement(sf, st, d) ==
  IF st = <<>>
  THEN IF sf.kind = "flat" \/ sf.assume \in {"NoCashDivs", "IndependentLogNormals"} THEN <<"num", Zero>>
       ELSE IF sf.assume = "JumpDivs" THEN <<"err", Zero>> ELSE <<"num", LineAt(sf.divs, d)>>
  ELSE IF Lst(st).o \in {"rep", "unk"} THEN <<"num", Zero>>
  ELSE IF Lst(st).o = "sd" /\ HasForward(sf, Front(st))
  THEN IF sf.assume = "JumpDivs" THEN <<"err", Zero>> ELSE <<"num", Zero>>      \* a driftless forward has no dividends
  ELSE IF Lst(st).o = "sf" /\ HasForward(sf, Front(st))
  THEN IF sf.assume = "JumpDivs" THEN <<"err", Zero>> ELSE <<"num", IF sf.assume = "FixedDivs" THEN CashAfter(Lst(st).view, d) ELSE Zero>>
  ELSE Displacement(sf, Front(st), d)
=============================================================================
