------------------------------- MODULE Serial -------------------------------
(***************************************************************************)
(* Documents: how everything that can be written is written, and what of a  *)
(* document can be read (P16).                                             *)
(*                                                                         *)
(* A document is a tree: [t |-> "obj", k, v] (keys and their values),       *)
(* [t |-> "arr", v], [t |-> "str", s, d] (d: looks like a date), and "num", *)
(* "nat", "bool", "null".  Schema and Families say what every kind of       *)
(* object looks like, whatever it is nested in, and Reads what happens when *)
(* a tree is read as an object of a type:                                  *)
(*   "yes"    it is read, and means what it says                           *)
(*   "may"    it means what it says, unless the values do not go together  *)
(*   "no"     it is refused                                                *)
(*   "open"   there is something too much in it, that a reader may ignore   *)
(*                                                                         *)
(* Docs, from the implementation, are what it wrote.  Each must be readable, *)
(* and from each every document that differs from it in one     *)
(* place is made (Damage) and emitted together with what reading it does.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS FirstDoc, LastDoc
Docs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES n, d
vars == <<n, d>>

(* ---- types *)
Num == [c |-> "num"]
Nat0 == [c |-> "nat"]
Bit == [c |-> "bool"]
Str == [c |-> "str"]
Day == [c |-> "date"]
(* follows from other fields, or is bound to them *)
Bound(t) == [c |-> "bound", of |-> t]
Unit == [c |-> "unit"]
Enum(s) == [c |-> "enum", of |-> s]
List(t) == [c |-> "list", of |-> t]
Dict(t) == [c |-> "map", of |-> t]
Tuple(s) == [c |-> "tuple", of |-> s]
(* points, in strictly increasing order, at least so many *)
Ordered(t, least) == [c |-> "ord", of |-> t, least |-> least]
(* pairs, in any order, no first twice *)
Pairs(t) == [c |-> "pairs", of |-> t]
Fam(f) == [c |-> "fam", of |-> f]
Rec(r) == [c |-> "rec", of |-> r]

Extraps == Enum({"Flat", "Natural", "NotANumber", "Zero", "Throw"})
Kind == [ calendar |-> Fam("calendar"), rule |-> Fam("rule"), curve |-> Fam("curve"), divs |-> Rec("DividendStream"), surface |-> Fam("surface"),
          currency |-> Rec("Currency"), instrument |-> Fam("instrument"), market |-> Rec("MarketData"), fixings |-> Rec("FixingTable"),
          factory |-> Fam("factory"), model |-> Fam("model"), generator |-> Fam("generator"), report |-> Fam("report"), reports |-> List(Fam("report")),
          volbump |-> Fam("volbump"), datebump |-> Rec("BumpSpotDate"), timebump |-> Rec("BumpTime"), line |-> Rec("LinearDate"), spline |-> Rec("CubicSpline"),
          moment |-> Rec("DateTime") ]

(* ---- families: tag, and what is tagged *)
Family ==
  [ calendar |-> [ EveryDayCalendar |-> Unit, WeekdayCalendar |-> Unit, WeekdayAndHolidayCalendar |-> Rec("WeekdayAndHolidayCalendar"), VolatilityCalendar |-> Rec("VolatilityCalendar") ],
    rule |-> [ NullRule |-> Rec("Nothing"), BusinessDays |-> Rec("BusinessDays"), ModifiedFollowing |-> Rec("ModifiedFollowing") ],
    curve |-> [ ZeroRateCurve |-> Rec("ZeroRateCurve"), RateCurveAct365 |-> Rec("RateCurveAct365"), AnnualisedFlatBump |-> Rec("CurveBump"),
                ContinuouslyCompoundedFlatBump |-> Rec("CurveBump"), RelativeBump |-> Rec("RelativeBump") ],
    surface |-> [ FlatVolSurface |-> Rec("FlatVolSurface"), VolByProbabilityFlatSmile |-> Rec("FlatSmiles"), VolByProbabilityCubicSplineSmile |-> Rec("CubicSplineSmiles"),
                  ConstantExpiryTimeEvolution |-> Rec("TimeEvolution"), RollingExpiryTimeEvolution |-> Rec("TimeEvolution"),
                  ParallelBumpVol |-> Rec("ParallelBumpVol"), TimeScaledBumpVol |-> Rec("TimeScaledBumpVol") ],
    instrument |-> [ Currency |-> Rec("Currency"), Equity |-> Rec("Equity"), CreditEntity |-> Rec("CreditEntity"), ZeroCoupon |-> Rec("ZeroCoupon"), Basket |-> Rec("Basket"),
                     SpotStartingEuropean |-> Rec("SpotStartingEuropean"), ForwardStartingEuropean |-> Rec("ForwardStartingEuropean") ],
    factory |-> [ SelfPricerFactory |-> Rec("Nothing"), MonteCarloPricerFactory |-> Rec("MonteCarloPricerFactory") ],
    model |-> [ BlackDiffusionFactory |-> Rec("BlackDiffusionFactory") ],
    generator |-> [ DeltaGammaReportGenerator |-> Rec("DeltaGamma"), VegaVolgaReportGenerator |-> Rec("VegaVolga"), TimeBumpedReportGenerator |-> Rec("TimeBumped") ],
    report |-> [ DeltaGammaReport |-> Rec("DeltaGammaReport"), VegaVolgaReport |-> Rec("VegaVolgaReport"), TimeBumpedReport |-> Rec("TimeBumpedReport") ],
    volbump |-> [ FlatAdditive |-> Rec("FlatAdditive"), TimeScaled |-> Rec("TimeScaled"), Replace |-> Rec("Replace") ] ]
AllTags == UNION { DOMAIN Family[f] : f \in DOMAIN Family }

(* ---- records *)
Points(t, least) == [ left |-> Extraps, right |-> Extraps, points |-> Ordered(Tuple(<<Bound(t), Num>>), least) ]
Smiles(r) == [ smiles |-> Bound(List(Tuple(<<Rec("DateDayFraction"), Rec(r)>>))), calendar |-> Bound(Fam("calendar")), base_date |-> Bound(Rec("DateDayFraction")),
               forward |-> Bound(Rec("LinearDate")), fixed_divs_after |-> Bound(Rec("LinearDate")),
               div_assumptions |-> Enum({"NoCashDivs", "FixedDivs", "IndependentLogNormals", "JumpDivs"}) ]
Vanilla == [ id |-> Str, credit_id |-> Str, underlying |-> Bound(Fam("instrument")), settlement |-> Fam("rule"), expiry |-> Bound(Rec("DateTime")),
             put_or_call |-> Enum({"Put", "Call"}), cash_or_physical |-> Enum({"Cash", "Physical"}),
             expiry_time |-> Bound(Rec("DateDayFraction")), pay_date |-> Bound(Day) ]
Empty0 == [x \in {} |-> Num]
Schema ==
  [ Nothing |-> Empty0,
    WeekdayAndHolidayCalendar |-> [ name |-> Str, holidays |-> Bound(List(Day)) ],
    VolatilityCalendar |-> [ name |-> Str, calendar |-> Fam("calendar"), holiday_weight |-> Num ],
    BusinessDays |-> [ calendar |-> Fam("calendar"), step |-> Bound([c |-> "int"]), slip_forward |-> Bound(Bit) ],
    ModifiedFollowing |-> [ calendar |-> Fam("calendar") ],
    ZeroRateCurve |-> [ base |-> Day ],
    RateCurveAct365 |-> [ base |-> Day, interp |-> Rec("LinearDate") ],
    CurveBump |-> [ curve |-> Fam("curve"), bump |-> Num ],
    RelativeBump |-> [ curve |-> Fam("curve"), one_plus_bump |-> Num ],
    LinearDate |-> Points(Day, 1),
    CubicSpline |-> Points(Num, 2),
    DateTime |-> [ date |-> Day, time_of_day |-> Enum({"Open", "EDSP", "Close"}) ],
    DateDayFraction |-> [ date |-> Day, day_fraction |-> Num ],
    DividendStream |-> [ dividends |-> Bound(List(Rec("Dividend"))), div_yield |-> Fam("curve"), last_cash_ex_date |-> Bound(Day) ],
    Dividend |-> [ cash |-> Num, relative |-> Num, ex_date |-> Day, pay_date |-> Day ],
    FlatVolSurface |-> [ vol |-> Num, calendar |-> Fam("calendar"), base_date |-> Rec("DateDayFraction") ],
    FlatSmiles |-> Smiles("FlatSmile"),
    CubicSplineSmiles |-> Smiles("CubicSplineSmile"),
    FlatSmile |-> [ vol |-> Num ],
    CubicSplineSmile |-> [ smile |-> Rec("CubicSpline") ],
    TimeEvolution |-> [ base_vol |-> Fam("surface"), vol_time_offset |-> Num, base_date |-> Rec("DateDayFraction") ],
    ParallelBumpVol |-> [ base_vol |-> Fam("surface"), bump |-> Num ],
    TimeScaledBumpVol |-> [ base_vol |-> Fam("surface"), bump |-> Num, vol_time_floor |-> Num ],
    Currency |-> [ id |-> Str, settlement |-> Fam("rule") ],
    Equity |-> [ id |-> Str, credit_id |-> Str, currency |-> Rec("Currency"), settlement |-> Fam("rule") ],
    CreditEntity |-> [ id |-> Str, currency |-> Rec("Currency"), settlement |-> Fam("rule") ],
    ZeroCoupon |-> [ id |-> Str, credit_id |-> Str, currency |-> Rec("Currency"), ex_date |-> Rec("DateTime"), payment_date |-> Day, settlement |-> Fam("rule") ],
    Basket |-> [ id |-> Str, credit_id |-> Str, currency |-> Rec("Currency"), settlement |-> Fam("rule"), basket |-> Bound(List(Tuple(<<Num, Fam("instrument")>>))) ],
    SpotStartingEuropean |-> [ strike |-> Num ] @@ Vanilla,
    ForwardStartingEuropean |-> [ strike_fraction |-> Num, strike_date |-> Bound(Rec("DateTime")), strike_time |-> Bound(Rec("DateDayFraction")) ] @@ Vanilla,
    MarketData |-> [ spot_date |-> Day, spots |-> Dict(Num), yield_curves |-> Dict(Fam("curve")), borrow_curves |-> Dict(Fam("curve")),
                     dividends |-> Dict(Rec("DividendStream")), vol_surfaces |-> Dict(Fam("surface")) ],
    FixingTable |-> [ fixings_known_until |-> Day, fixings_by_id |-> Dict(Rec("Fixings")) ],
    Fixings |-> [ fixing_by_date |-> Pairs(Tuple(<<Bound(Rec("DateTime")), Num>>)) ],
    MonteCarloPricerFactory |-> [ model_factory |-> Fam("model") ],
    BlackDiffusionFactory |-> [ correlation_substep |-> Nat0, path_substep |-> Num, number_of_paths |-> Nat0 ],
    DeltaGamma |-> [ bumpsize |-> Num ],
    VegaVolga |-> [ bump |-> Fam("volbump") ],
    TimeBumped |-> [ bump |-> Rec("BumpTime"), subgenerators |-> List(Fam("generator")) ],
    BumpTime |-> [ spot_date_bump |-> Rec("BumpSpotDate"), _ex_from |-> Day ],
    BumpSpotDate |-> [ spot_date |-> Day, spot_dynamics |-> Enum({"StickySpot", "StickyForward"}) ],
    FlatAdditive |-> [ size |-> Num ],
    TimeScaled |-> [ size |-> Num, floor |-> Num ],
    Replace |-> [ vol |-> Num ],
    DeltaGammaReport |-> [ bumpsize |-> Num, results |-> Dict(Rec("DeltaGammaResult")) ],
    DeltaGammaResult |-> [ delta |-> Num, gamma |-> Num ],
    VegaVolgaReport |-> [ bumpsize |-> Num, results |-> Dict(Rec("VegaVolgaResult")) ],
    VegaVolgaResult |-> [ vega |-> Num, volga |-> Num ],
    TimeBumpedReport |-> [ price |-> Num, theta |-> Num, subreports |-> List(Fam("report")) ] ]

(* ---- reading *)
Max2(a, b) == LET o == [x \in {"yes", "may", "open", "no"} |-> CASE x = "yes" -> 0 [] x = "may" -> 1 [] x = "open" -> 2 [] OTHER -> 3]
              IN IF o[a] >= o[b] THEN a ELSE b
Worst(s) == IF s = {} THEN "yes" ELSE CHOOSE x \in s : \A y \in s : Max2(x, y) = x
If(b) == IF b THEN "yes" ELSE "no"
At(o, key) == CHOOSE a \in DOMAIN o.k : o.k[a] = key
HasKey(o, key) == \E a \in DOMAIN o.k : o.k[a] = key

RECURSIVE Reads(_, _)
Reads(x, t) ==
  CASE t.c = "bound" -> Reads(x, t.of)
    [] t.c = "num" -> If(x.t \in {"num", "nat", "int"})
    [] t.c = "nat" -> If(x.t = "nat")
    [] t.c = "int" -> If(x.t \in {"nat", "int"})
    [] t.c = "bool" -> If(x.t = "bool")
    [] t.c = "str" -> If(x.t = "str")
    [] t.c = "date" -> If(x.t = "str" /\ x.d)
    [] t.c = "unit" -> If(x.t = "arr" /\ Len(x.v) = 0)
    [] t.c = "enum" -> If(x.t = "str" /\ x.s \in t.of)
    [] t.c \in {"list", "pairs"} -> IF x.t # "arr" THEN "no" ELSE Worst({ Reads(x.v[a], t.of) : a \in DOMAIN x.v })
    [] t.c = "ord" -> IF x.t # "arr" THEN "no" ELSE IF Len(x.v) < t.least THEN "no" ELSE Worst({ Reads(x.v[a], t.of) : a \in DOMAIN x.v })
    [] t.c = "map" -> IF x.t # "obj" THEN "no" ELSE Worst({ Reads(x.v[a], t.of) : a \in DOMAIN x.v })
    [] t.c = "tuple" -> IF x.t # "arr" THEN "no" ELSE IF Len(x.v) # Len(t.of) THEN "no" ELSE Worst({ Reads(x.v[a], t.of[a]) : a \in DOMAIN x.v })
    [] t.c = "rec" -> LET s == Schema[t.of] IN
         (* a list of all the fields may also do *)
         IF x.t = "arr" THEN (IF Len(x.v) = Cardinality(DOMAIN s) THEN "open" ELSE "no")
         ELSE IF x.t # "obj" THEN "no"
         ELSE IF \E f \in DOMAIN s : ~ HasKey(x, f) THEN "no"
         ELSE LET r == Worst({ Reads(x.v[At(x, f)], s[f]) : f \in DOMAIN s })
              IN IF Len(x.k) > Cardinality(DOMAIN s) THEN Max2(r, "open") ELSE r
    [] t.c = "fam" ->
         IF x.t # "obj" THEN "no" ELSE IF Len(x.k) # 1 THEN "no"
         ELSE IF x.k[1] \notin DOMAIN Family[t.of] THEN "no" ELSE Reads(x.v[1], Family[t.of][x.k[1]])

(* ---- places in a document: how to get there, and the type there *)
Place(x, t, path, free) == IF t.c = "bound" THEN [path |-> path, x |-> x, t |-> t.of, free |-> FALSE] ELSE [path |-> path, x |-> x, t |-> t, free |-> free]
Parts(p) ==
  LET Part(a, t, key) == Place(p.x.v[a], t, Append(p.path, key), p.free) IN
  CASE p.t.c \in {"list", "pairs", "ord"} -> [a \in 1 .. Len(p.x.v) |-> Part(a, p.t.of, ToString(a))]
    [] p.t.c = "map" -> [a \in 1 .. Len(p.x.v) |-> Part(a, p.t.of, p.x.k[a])]
    [] p.t.c = "tuple" -> [a \in 1 .. Len(p.x.v) |-> Part(a, p.t.of[a], ToString(a))]
    [] p.t.c = "rec" -> [a \in 1 .. Len(p.x.v) |-> Part(a, Schema[p.t.of][p.x.k[a]], p.x.k[a])]
    [] p.t.c = "fam" -> << Part(1, Family[p.t.of][p.x.k[1]], p.x.k[1]) >>
    [] OTHER -> <<>>
RECURSIVE Places(_)
Places(ps) == IF ps = <<>> THEN <<>> ELSE << Head(ps) >> \o Places(Parts(Head(ps))) \o Places(Tail(ps))

(* ---- what can be done to one place *)
Puts == [ string |-> [t |-> "str", s |-> "zz", d |-> FALSE], day |-> [t |-> "str", s |-> "2018-07-23", d |-> TRUE], baddate |-> [t |-> "str", s |-> "2018-02-30", d |-> FALSE],
          shortdate |-> [t |-> "str", s |-> "2018-02", d |-> FALSE], number |-> [t |-> "num"], half |-> [t |-> "num"], minus |-> [t |-> "int"], three |-> [t |-> "nat"],
          zero |-> [t |-> "num"], big |-> [t |-> "num"], tiny |-> [t |-> "num"], negative |-> [t |-> "num"], bool |-> [t |-> "bool"],
          null |-> [t |-> "null"], empty |-> [t |-> "obj", k |-> <<>>, v |-> <<>>], list |-> [t |-> "arr", v |-> <<>>], nest |-> [t |-> "arr", v |-> << [t |-> "arr", v |-> <<>>] >>] ]
(* numbers that need not make sense *)
Extreme == {"zero", "big", "tiny", "negative", "minus"}
Without(q, a) == SubSeq(q, 1, a - 1) \o SubSeq(q, a + 1, Len(q))
Edit(op, arg, x) == [op |-> op, arg |-> arg, x |-> x]
Edits(x, t) ==
    { Edit("put", p, Puts[p]) : p \in DOMAIN Puts }
    \cup { Edit("wrap", "", [t |-> "arr", v |-> <<x>>]) }
    \cup (IF x.t = "obj" THEN { Edit("drop", x.k[a], [t |-> "obj", k |-> Without(x.k, a), v |-> Without(x.v, a)]) : a \in DOMAIN x.k } ELSE {})
    \cup (IF t.c = "fam"
          THEN { Edit("tag", g, [t |-> "obj", k |-> <<g>>, v |-> x.v]) : g \in (AllTags \cup {"Nonsense", "", " " \o x.k[1], x.k[1] \o " ", x.k[1] \o "2"}) \ {x.k[1]} }
               \cup { Edit("lower", "", [t |-> "obj", k |-> << "" >>, v |-> x.v]) }
               \cup { Edit("two", g, [t |-> "obj", k |-> x.k \o <<g>>, v |-> x.v \o x.v]) : g \in (DOMAIN Family[t.of] \cup {"Nonsense"}) \ {x.k[1]} }
               \cup { Edit("untag", "", x.v[1]) }
          ELSE {})
    \cup (IF t.c = "enum" THEN { Edit("name", g, [t |-> "str", s |-> g, d |-> FALSE]) : g \in t.of \ {x.s} } \cup { Edit("case", "", [t |-> "str", s |-> "", d |-> FALSE]) } ELSE {})
    \cup (IF x.t = "arr" /\ Len(x.v) > 0
          THEN { Edit("less", "", [t |-> "arr", v |-> SubSeq(x.v, 1, Len(x.v) - 1)]), Edit("longer", "", [t |-> "arr", v |-> Append(x.v, x.v[Len(x.v)])]) } ELSE {})
    \cup (IF t.c \in {"ord", "list", "pairs"} /\ x.t = "arr"
          THEN { Edit("swap", ToString(a), [t |-> "arr", v |-> [x.v EXCEPT ![a] = x.v[a + 1], ![a + 1] = x.v[a]]]) : a \in 1 .. Len(x.v) - 1 } ELSE {})
(* What comes of it.  Points have to be in order, and nothing can be fixed twice; values that  *)
(* are bound to others, or go into building something, need not be possible                    *)
Verdict(e, p) ==
  LET r == Reads(e.x, p.t) IN
    IF p.t.c = "ord" /\ e.op \in {"swap", "longer"} THEN "no"
    ELSE IF p.t.c = "pairs" /\ e.op = "longer" THEN "no"
    ELSE IF r = "yes" /\ (~ p.free \/ e.arg \in Extreme) THEN "may"
    ELSE r

Doc == Docs[n].doc
Type == Kind[Docs[n].kind]
Whole(op) == [op |-> op, arg |-> "", r |-> "yes", path |-> <<>>]
Damages(ps) == UNION { { [op |-> e.op, arg |-> e.arg, r |-> Verdict(e, ps[a]), path |-> ps[a].path] : e \in Edits(ps[a].x, ps[a].t) } : a \in DOMAIN ps }
Init == n \in FirstDoc .. LastDoc /\ d = Whole("same")
(* what was written, but in another order, or spaced out, or with whole numbers as such *)
Same == /\ d.op = "same" /\ n' = n
        /\ \E op \in {"reverse", "spaced", "integers"} : d' = Whole(op)
Damage == /\ d.op = "same" /\ n' = n /\ Reads(Doc, Type) = "yes"
          /\ d' \in Damages(Places(<< Place(Doc, Type, <<>>, TRUE) >>))
Next == Same \/ Damage
Spec == Init /\ [][Next]_vars

Emit == /\ CSVWrite("%1$s", << ToJson([n |-> n, op |-> d.op, arg |-> d.arg, r |-> d.r, path |-> d.path]) >>, IOEnv.OUT)
        /\ d.op # "same" \/ Reads(Doc, Type) # "no" \/ CSVWrite("%1$s", << ToJson([n |-> n, e |-> Docs[n]]) >>, IOEnv.BAD)
=============================================================================
