----------------------------- MODULE CurveTerms -----------------------------
(* Rates of pillar curves as terms.  A curve is a record [kind, base, x     *)
(* (days, increasing), y (rates in bp), left, right]; bumps are             *)
(* <<kind, size in bp>>, oldest first.                                      *)
EXTENDS Terms

Bp(n) == C(n, 10000)

LOCAL Outside(rule, edge, inner) ==
  CASE rule = "Flat" -> Bp(edge)
    [] rule = "Zero" -> Zero
    [] rule = "Natural" -> inner
LOCAL Line(cv, a, d) == Lerp(Bp(cv.y[a]), Bp(cv.y[a + 1]), d - cv.x[a], cv.x[a + 1] - cv.x[a])

CurveDefined(cv, d) ==
  LET N == Len(cv.x) IN
  \/ cv.kind = "zero" \/ d = cv.base
  \/ /\ d < cv.x[1] => cv.left # "Throw" /\ (cv.left # "Natural" \/ N > 1)
     /\ d > cv.x[N] => cv.right # "Throw" /\ (cv.right # "Natural" \/ N > 1)

RawRate(cv, d) ==
  LET N == Len(cv.x) IN
  IF cv.kind = "zero" \/ d = cv.base THEN Zero      \* at the base date no time has passed
  ELSE IF d < cv.x[1] THEN Outside(cv.left, cv.y[1], IF N > 1 THEN Line(cv, 1, d) ELSE Zero)
  ELSE IF d > cv.x[N] THEN Outside(cv.right, cv.y[N], IF N > 1 THEN Line(cv, N - 1, d) ELSE Zero)
  ELSE IF d = cv.x[N] THEN Bp(cv.y[N])
  ELSE LET a == CHOOSE b \in 1 .. N - 1 : cv.x[b] <= d /\ d < cv.x[b + 1] IN Line(cv, a, d)

(* A continuously compounded rate r is an annualised yield of exp(r) - 1. *)
RECURSIVE Rate(_, _, _)
Rate(cv, st, d) ==
  IF st = <<>> THEN RawRate(cv, d)
  ELSE LET b == st[Len(st)]
           r == Rate(cv, SubSeq(st, 1, Len(st) - 1), d)
       IN CASE b[1] = "ann" -> Ln(Add(Exp(r), Bp(b[2])))
            [] b[1] = "cc"  -> Add(r, Bp(b[2]))
            [] b[1] = "rel" -> Mul(r, Bp(b[2]))

Time(cv, d) == C(d - cv.base, 365)
RT(cv, st, d) == Mul(Rate(cv, st, d), Time(cv, d))
(* value at date b of one unit paid at date a, times... : df from a to b *)
DF(cv, st, a, b) == IF a = b THEN One ELSE Exp(Sub(RT(cv, st, b), RT(cv, st, a)))
=============================================================================
