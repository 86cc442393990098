----------------------------- MODULE BlackTerms -----------------------------
(* The discounted lognormal expectation of a call or put payoff, as a term. *)
EXTENDS Terms
DPlus(f, k, s)  == Add(Div(Ln(Div(f, k)), s), Mul(C(1, 2), s))
DMinus(f, k, s) == Sub(Div(Ln(Div(f, k)), s), Mul(C(1, 2), s))
BlackCall(df, f, k, s) == Mul(df, Sub(Mul(f, Phi(DPlus(f, k, s))), Mul(k, Phi(DMinus(f, k, s)))))
BlackPut(df, f, k, s)  == Mul(df, Sub(Mul(k, Phi(Neg(DMinus(f, k, s)))), Mul(f, Phi(Neg(DPlus(f, k, s))))))
(* without uncertainty *)
Intrinsic(df, f, k)    == Mul(df, Max2(Sub(f, k), Zero))
PutIntrinsic(df, f, k) == Mul(df, Max2(Sub(k, f), Zero))
=============================================================================
