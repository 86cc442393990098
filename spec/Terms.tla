------------------------------- MODULE Terms --------------------------------
(***************************************************************************)
(* Real-valued expectations, written as terms.  TLC has no reals, so the   *)
(* specifications say which number is meant as an expression over integers *)
(* and the harness, which knows nothing of QuantMath, evaluates it.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

C(n, d)   == <<"c", n, d>>          \* the rational n/d
K(n)      == <<"c", n, 1>>
Zero      == K(0)
One       == K(1)
IsC(a)    == a[1] = "c"
IsZero(a) == a[1] = "c" /\ a[2] = 0
IsOne(a)  == a[1] = "c" /\ a[2] = a[3]

Add(a, b) == IF IsZero(a) THEN b ELSE IF IsZero(b) THEN a ELSE <<"+", a, b>>
Sub(a, b) == IF IsZero(b) THEN a ELSE <<"-", a, b>>
Mul(a, b) == IF IsZero(a) \/ IsZero(b) THEN Zero
             ELSE IF IsOne(a) THEN b ELSE IF IsOne(b) THEN a ELSE <<"*", a, b>>
Div(a, b) == IF IsOne(b) THEN a ELSE <<"/", a, b>>
Sci(m, e) == <<"sci", m, e>>        \* m times ten to the e
Neg(a)    == Sub(Zero, a)
Exp(a)    == IF IsZero(a) THEN One ELSE <<"exp", a>>
Ln(a)     == <<"ln", a>>
Sqrt(a)   == <<"sqrt", a>>
Sq(a)     == IF IsZero(a) \/ IsOne(a) THEN a ELSE <<"sq", a>>
Max2(a, b) == <<"max", a, b>>
Min2(a, b) == <<"min", a, b>>
Ceil(a)   == <<"ceil", a>>
Phi(a)    == <<"N", a>>             \* standard normal distribution function
Lerp(y0, y1, n, d) == Add(y0, Mul(Sub(y1, y0), C(n, d)))   \* a fraction n/d of the way

(* Sharing: Let("x", a, b) is b with Ref("x") standing for a. *)
Let(n, a, b) == <<"let", n, a, b>>
Ref(n)    == <<"v", n>>
(* A named function of the definitions that accompany a term, [n, p, b]:    *)
(* name, parameter, body.                                                  *)
Call(n, a) == <<"call", n, a>>
(* a >= b ? t : e *)
IfGe(a, b, t, e) == <<"ge", a, b, t, e>>

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), SumSeq(Tail(s)))
=============================================================================
