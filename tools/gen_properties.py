#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run it after editing the text here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                     observe_at=observe or [], hook_needed=hook)))

prop("P01", "Undoing a market bump restores exactly the state before it",
 "Whatever sequence of spot, dividend, borrow, yield and volatility bumps is applied to a priced market with a save area, "
 "restoring from that save area brings every price, forward, volatility, discount factor and spot back to the value they had before "
 "the first bump saved into it, bit for bit. "
 "Bumping something the market does not hold reports that nothing changed and changes nothing, and clearing a save area makes a later restore a no-op.",
 ["histories", "inputs"], "every finite history of bump (saved or unsaved), restore and clear over every kind of bump, every market and both raw and cached pricing contexts",
 "Unit tests bump once, restore once and compare a handful of prices; they never bump the same datum twice, bump an absent datum, or restore after a history of bumps of several kinds.",
 ["src/risk/marketdata.rs", "src/risk/cache.rs", "src/risk/mod.rs", "src/pricers/selfpricer.rs", "src/data/bump*.rs"],
 [("MarketData::bump/restore with SavedData", "src/risk/marketdata.rs"), ("PricingContextPrefetch::bump/restore with SavedPrefetch", "src/risk/cache.rs")],
 state=[("market", "spot, yield, borrow, dividend and vol data by id, each with the bumps applied", "MarketData"), ("save area", "what each datum was before the first saved bump", "SavedData / SavedPrefetch")],
 observe=["Pricer::price", "PricingContext::spot/yield_curve/forward_curve/vol_surface"])

prop("P02", "Incremental repricing equals valuation from scratch on the bumped market",
 "After any sequence of bumps and restores, what a pricer that caches market data reports (prices and the forwards, vols, spots and yields it exposes) is what a "
 "freshly built pricer reports on market data carrying the same bumps, and both are what the definitions of the bumps say the market now is. "
 "A bump of one instrument or curve never changes what is seen of unrelated ones.",
 ["histories", "inputs", "configurations"], "every finite history of bumps of every kind on markets with several equities sharing or not sharing credit curves",
 "Tests price a few single bumps against hard-coded numbers; the invalidation of derived cached data depends on the combination of the bump kind, the dependency structure and the history.",
 ["src/risk/cache.rs", "src/risk/marketdata.rs", "src/risk/dependencies.rs", "src/pricers/selfpricer.rs"],
 [("PricingContextPrefetch::refetch / refetch_all", "src/risk/cache.rs"), ("forward_id_by_credit_id", "src/risk/dependencies.rs"), ("MarketData::apply_bump", "src/risk/marketdata.rs")],
 state=[("cache", "prefetched forwards and vol surfaces by instrument id", "PricingContextPrefetch")],
 observe=["Pricer::price", "PricingContext methods of the pricer's context"])

prop("P03", "Monte-Carlo paths and prices follow the market and its bumps exactly",
 "Every simulated path is the product over its steps of one plus the gaussian increment times the step's standard deviation, scaled to the current forward, "
 "with step variances adding up to the at-the-forward variance at each observation; the Monte-Carlo price is the average payoff over those paths times the discount factor of the payment. "
 "Bumps re-derive the paths from the same random numbers so that only the bumped asset's paths move, and a restore returns paths and price exactly to what they were.",
 ["histories", "inputs"], "every gaussian draw, observation schedule, substepping, payoff and bump/restore history of the single-asset diffusion",
 "The Monte-Carlo tests draw unseeded random numbers and compare prices loosely; they cannot see a path formula, substepping, caching or restore error below the sampling noise.",
 ["src/models/blackdiffusion.rs", "src/models/mod.rs", "src/pricers/montecarlo.rs", "src/instruments/options.rs"],
 [("fetch_path / calculate_substepping", "src/models/blackdiffusion.rs"), ("BlackDiffusion::bump/restore", "src/models/blackdiffusion.rs"), ("mc_price", "src/instruments/options.rs")],
 observe=["MonteCarloContext::paths", "MonteCarloContext::evaluate_flows", "Pricer::price"])

prop("P04", "Delta, gamma, vega and volga are the bump-and-revalue differences they claim",
 "For each instrument and surface the priced product depends on, the reported delta and gamma (vega and volga) are the first and second central differences of the price under the configured spot (vol) bump "
 "on an otherwise unchanged market, whatever the order of instruments and whatever other reports ran before. "
 "Generating a report leaves the pricer's price and the save area exactly as they were.",
 ["inputs", "histories", "configurations"], "every product, market, bump size and sequence of report generations on one pricer",
 "Tests check one product and bump size against constants and never run several reports in sequence or look at the state left behind.",
 ["src/risk/deltagamma.rs", "src/risk/vegavolga.rs", "src/risk/mod.rs", "src/data/bumpspot.rs", "src/data/bumpvol.rs"],
 [("DeltaGammaReportGenerator::generate", "src/risk/deltagamma.rs"), ("VegaVolgaReportGenerator::generate", "src/risk/vegavolga.rs"), ("BumpVol::opposite", "src/data/bumpvol.rs")],
 observe=["ReportGenerator::generate", "Report results", "Pricer::price"])

prop("P05", "Moving the valuation date reprices as a fresh valuation on the new date",
 "Advancing a pricer by whole days under the chosen spot dynamics gives the same price as building a new pricer on the new date with the market evolved by those dynamics and with the fixings that fell in between set accordingly; "
 "theta is the difference from the original price and sub-reports are those of the advanced pricer. "
 "The pricer the report was generated from, and its instruments, are left unchanged.",
 ["inputs", "histories", "configurations"], "every number of days, position of fixing dates relative to the old and new dates, spot and vol dynamics, and product",
 "Tests advance one day over at most one fixing; boundary cases (fixing exactly on the old or new date, several fixings crossed, products sharing fixings) are not exercised.",
 ["src/risk/bumptime.rs", "src/risk/timebumped.rs", "src/data/bumpspotdate.rs", "src/pricers/selfpricer.rs"],
 [("BumpTime::apply / update_instruments", "src/risk/bumptime.rs"), ("TimeBumpedReportGenerator::generate", "src/risk/timebumped.rs"), ("MarketData::bump_spot_date", "src/risk/marketdata.rs")],
 observe=["TimeBumpable::bump_time", "ReportGenerator::generate", "Pricer::price"])

prop("P06", "Fixing transforms an instrument into exactly what it contractually becomes",
 "Applying known fixings turns an option into its exercise value at the moment of expiry (cash payment, or strike against underlying, with the right signs, amounts and dates, or nothing if out of the money), "
 "a forward-starting option into a spot-starting one struck at the fixing times its fraction, and a basket into the weighted fixed components; instruments without an applicable fixing are left alone. "
 "A fixing that is missing but required is an error, and applying fixings in stages as they become known gives the same holdings as applying all of them at once.",
 ["inputs", "histories"], "every composition of options and (nested) baskets, every put/call and settlement style, every order in which fixings become known",
 "Tests fix single options at one or two fixing values; composition with baskets, weights, staging and boundary fixings is not covered.",
 ["src/instruments/options.rs", "src/instruments/basket.rs", "src/instruments/mod.rs", "src/data/fixings.rs"],
 [("Instrument::fix", "src/instruments/options.rs"), ("fix_all", "src/instruments/mod.rs"), ("Basket::fix", "src/instruments/basket.rs")],
 state=[("holding", "weighted multiset of live instruments", "Vec<(f64, RcInstrument)>")],
 observe=["Instrument::fix", "prices of the resulting holdings"])

prop("P07", "A fixing table answers each lookup with what was supplied, or says why not",
 "A lookup returns exactly the value supplied for that instrument, date and time of day; when none was supplied it is absent if the date is on or after the date to which fixings are known, and an error if before. "
 "Supplying two values for one instrument and moment, or two curves for one instrument, is rejected without disturbing what was already recorded, however the table is built; a serialised curve naming one moment twice is rejected too, and a table survives a round trip through its serialised form.",
 ["inputs", "histories"], "every sequence of insertions and lookups over ids, dates and times of day, and every construction route",
 "Tests build one small table and look up a few points.",
 ["src/data/fixings.rs"],
 [("FixingTable::get/insert/from_fixings/from_iter_known_until", "src/data/fixings.rs"), ("Fixings::new and its deserialisation", "src/data/fixings.rs")],
 state=[("table", "partial function (id, date, time of day) -> value plus known-until date", "FixingTable")],
 observe=["FixingTable::get", "FixingTable::get_optional", "serde_json"])

prop("P08", "Instruments declare every piece of market data and every fixing they use",
 "Pricing or fixing any instrument only asks for yields, spots, forwards, vols and fixings that its declared dependencies list, up to dates no later than the declared horizons, "
 "so that a pricer that fetched only the declared data can always price it; declared instruments, curves and fixings are each listed once.",
 ["inputs", "configurations"], "every instrument composition, spot date relative to expiries and settlement rule",
 "Each test instrument's dependencies are spot-checked once; the containment of actual queries in declarations for all compositions is never checked.",
 ["src/risk/dependencies.rs", "src/instruments/*.rs"],
 [("Instrument::dependencies", "src/instruments/*.rs"), ("DependencyCollector", "src/risk/dependencies.rs")],
 observe=["PricingContext calls made while pricing", "DependencyCollector contents"])

prop("P09", "Business-day and volatility-time counts add up day by day",
 "For every calendar the count between two instants is the sum over days of the day's weight times the part of the day covered: one for a business day, nothing for a holiday, and the blended weight for a volatility calendar; it is additive over adjoining intervals and zero for an empty one. "
 "Whether a day is a business day is decided by weekends and the calendar's holidays only, and the standard basis turns counts into year fractions.",
 ["inputs", "configurations"], "every calendar (every-day, weekday, holiday lists, volatility blends), every pair of dates, day fractions and orderings",
 "Tests check a few dozen ranges on one or two calendars.",
 ["src/dates/calendar.rs"],
 [("Calendar::count_business_days / partial counts / year_fraction", "src/dates/calendar.rs")],
 observe=["Calendar trait methods"])

prop("P10", "Stepping by business days and date rules lands on the contractual date",
 "Stepping n business days forward or back from any date lands on the business day reached by first slipping off a holiday in the stated direction and then moving one business day at a time, so that n steps then m steps in the same direction equal n+m; "
 "fractional steps on a volatility calendar land where the blended day count is nearest the requested one. "
 "Date rules return dates consistent with this: the modified-following rule never leaves the month, and the do-nothing rule returns its argument.",
 ["inputs", "configurations"], "every calendar, start date (business day or holiday), step size and direction, and rule",
 "Tests walk short ranges around one or two holidays.",
 ["src/dates/calendar.rs", "src/dates/rules.rs"],
 [("Calendar::step / step_partial", "src/dates/calendar.rs"), ("DateRule::apply", "src/dates/rules.rs")],
 observe=["Calendar::step", "Calendar::step_partial", "DateRule::apply"])

prop("P11", "Dates follow the Gregorian calendar with exact arithmetic and text round trip",
 "Every supported date corresponds to exactly one year, month and day of the Gregorian calendar and one weekday, in order and without gaps; adding, subtracting and comparing agree with counting days. "
 "The text of a date reads back as the same date and malformed text is rejected with an error rather than a wrong date or a crash; moments within a day order as open, EDSP, close.",
 ["inputs"], "every date in the supported range of about two hundred years, every small offset and every malformed text shape",
 "Tests sample a few dozen dates and strings.",
 ["src/dates/mod.rs", "src/dates/datetime.rs"],
 [("truncated_julian_from_ymd / ymd_from_truncated_julian", "src/dates/mod.rs"), ("FromStr / Display / serde for Date", "src/dates/mod.rs"), ("Ord for DateTime and DateDayFraction", "src/dates/datetime.rs")],
 observe=["Date API", "serde_json"])

prop("P12", "Equity forwards are the no-arbitrage result of spot, rates, borrow and dividends",
 "The forward on any date is the spot less the discounted dividends that go ex by that date, grown to the settlement of that date at funding less borrow and dividend yield: fixed amounts subtract their own value paid on the pay date, proportional amounts scale with the price net of earlier dividends, and dividends after the date or before the base date have no effect. "
 "Cash, relative and yield dividends may be mixed in any number and bumped, and requests outside the range prepared for are errors.",
 ["inputs", "configurations"], "every dividend stream, base date, settlement rule, set of curves and query date up to the horizon",
 "Tests check a few streams at a few dates with loose tolerances.",
 ["src/data/forward.rs", "src/data/divstream.rs"],
 [("EquityForward", "src/data/forward.rs"), ("DividendBootstrap / DividendStream", "src/data/divstream.rs")],
 observe=["Forward::forward", "DividendBootstrap::discounted_sum_from_base and related"])

prop("P13", "Rate curves and their bumps give consistent discount factors",
 "The rate at a date interpolates the curve's pillars on an actual/365 time scale; discount factors multiply along a path of dates, are one over an empty interval and reciprocal when reversed. "
 "A flat annualised, flat continuously compounded or relative bump changes every rate by exactly the stated amount in its own compounding, bumps compose, and the bumped curve is otherwise the same curve.",
 ["inputs", "histories"], "every pillar set, extrapolation, base date, date pair and stack of bumps",
 "Tests evaluate one curve at a few dates and each bump once.",
 ["src/data/curves.rs", "src/data/bumpyield.rs"],
 [("RateCurve::r_and_t/rt/df", "src/data/curves.rs"), ("bump decorators", "src/data/curves.rs"), ("BumpYield::apply", "src/data/bumpyield.rs")],
 observe=["RateCurve trait methods"])

prop("P14", "Volatility surfaces, their dynamics and bumps give the variance they define",
 "A surface's vol at a pillar is that pillar's smile; between pillars variance interpolates in vol time along strikes of equal normalised distance from the forward, and outside them the nearest smile applies, with variance always vol squared times vol time measured on the surface's calendar. "
 "Parallel, time-scaled, replacing and sticky-delta bumps and constant-expiry and rolling-expiry time evolution transform vol, time, strike and forward exactly as their definitions say and compose; impossible inputs such as decreasing variance are errors.",
 ["inputs", "histories", "configurations"], "every flat or pillar surface, smile kind, calendar, strike, date and stack of bumps and time evolutions",
 "Tests evaluate a few points on one or two surfaces with at most one decorator.",
 ["src/data/volsurface.rs", "src/data/voldecorators.rs", "src/data/volsmile.rs", "src/data/bumpvol.rs"],
 [("VolSurface methods", "src/data/volsurface.rs"), ("decorators", "src/data/voldecorators.rs"), ("BumpVol::apply", "src/data/bumpvol.rs")],
 observe=["VolSurface::volatilities/variances/forward_variances/displacement/vol_time", "VolSmile::volatilities"])

prop("P15", "Interpolators pass through their data and honour their extrapolation rule",
 "Linear interpolation between ordered points is the straight line through neighbours, cubic splines pass through every point with continuous first and second derivatives and the stated end conditions, and outside the data each side separately follows its chosen rule (flat, natural continuation, zero, not-a-number or error). "
 "Unordered, duplicated or missing abscissae are rejected, and nothing depends on the order of queries.",
 ["inputs", "configurations"], "every set of points over numbers, dates or date fractions, every pair of extrapolation rules and every query",
 "Tests evaluate one or two point sets at sample values with mostly equal rules on both sides.",
 ["src/math/interpolation.rs"],
 [("Linear / CubicSpline / FlyweightLinear", "src/math/interpolation.rs")],
 observe=["Interpolate::interpolate"])

prop("P16", "Serialised objects read back as equivalent objects, and bad input is an error",
 "Writing any instrument, market data, fixing table, curve, surface, rule, pricer factory, report generator, bump or report to JSON and reading it back yields an object that serialises to the same JSON and behaves the same, nested as deep as the JSON reader goes. "
 "Each type is recognised only by its own tag, and unknown tags, missing fields, wrong types and truncated text give an error, never a crash or a silently different object.",
 ["inputs", "programs"], "every object of every serialisable kind, any nesting, and every single-point corruption of its JSON",
 "Tests round-trip one instance of some kinds and a handful of malformed documents.",
 ["src/core/factories.rs", "src/facade/mod.rs", "src/*/mod.rs"],
 [("Registry / Qrc / Qbox tagged (de)serialisation", "src/core/factories.rs"), ("get_registry in each module", "src/*/mod.rs")],
 observe=["serde_json::to_string / from_str on public types", "facade *_from_json"])

prop("P17", "Deduplicated serialisation shares, inlines or names objects as its mode says",
 "In write-once mode each shared object is written in full the first time and by name afterwards, in inline mode always in full, and in error-if-missing mode always by name; reading resolves names to the very objects supplied or read earlier and fails when one is unknown, so that sharing survives a round trip. "
 "A mode and its objects apply only inside the scope and thread that set them, scopes nest, and leaving a scope by return, error or panic restores what was in force before.",
 ["histories", "schedules", "programs"], "every nesting and interleaving of scopes with modes over two object kinds, every object graph with sharing, across threads",
 "Tests use one scope with one or two objects; nesting, leaving by error or panic, and thread isolation are not exercised.",
 ["src/core/dedup.rs", "src/instruments/mod.rs", "src/instruments/assets.rs", "src/facade/mod.rs"],
 [("dedup::with and thread-local Dedup", "src/core/dedup.rs"), ("serialize_with_dedup / deserialize_with_dedup", "src/core/dedup.rs")],
 state=[("scope stack", "mode and known objects per kind per thread", "DEDUP_INSTRUMENT / DEDUP_CURRENCY")],
 observe=["serde_json inside dedup scopes"])

prop("P18", "The C interface never unwinds, misuses a handle or hides an error",
 "Every call of the C interface returns a handle or value whatever handles and text it is given: success yields a handle usable exactly where its kind is expected, and any failure, wrong kind of handle, error handle passed on, malformed text, missing data or internal panic yields an error handle whose message can be read and which poisons what is built from it. "
 "Using a handle does not consume it unless it is the free operation, freeing one does not affect objects built from it, and results equal those of the library called directly.",
 ["programs", "histories", "fault_sequences"], "every sequence of C interface calls over handles of every kind, including error handles and malformed text",
 "One C test program follows one successful path.",
 ["src/facade/c_interface.rs", "src/facade/handle.rs", "src/facade/mod.rs"],
 [("extern_handle / catch_unwind", "src/facade/handle.rs, src/facade/c_interface.rs")],
 state=[("handle table", "kind and liveness of each returned handle", "Handle")],
 observe=["qm_* functions"])

prop("P19", "Report comparison accepts equal reports and rejects any real difference",
 "Comparing two result sets succeeds exactly when both have the same reports for the same ids with every number equal within its tolerance, the largest difference allowed: the price tolerance for prices and thetas, "
 "the unit risk tolerance over the bump size for deltas and over its square for gammas, the currency risk tolerance likewise for vegas and volgas. "
 "A number outside tolerance, a missing or extra id or report, a different bump size or a different kind of report, at any depth, is reported as different whichever side it is on, and the comparison is symmetric.",
 ["inputs", "configurations"], "every pair of result sets that differ in at most a few places, every report kind including nested ones, and every tolerance",
 "Tests only compare equal reports.",
 ["src/risk/mod.rs", "src/risk/deltagamma.rs", "src/risk/vegavolga.rs", "src/risk/timebumped.rs", "src/facade/mod.rs", "src/math/numerics.rs"],
 [("ApproxEq::validate / ApproxEqReport::validate_report", "src/risk/*.rs, src/math/numerics.rs"), ("assert_approx_eq_reports", "src/facade/mod.rs")],
 observe=["assert_approx_eq_reports", "qm_assert_approx_eq_reports"])

prop("P20", "Black-76 prices obey parity, bounds, monotonicity and their limits",
 "Call and put prices are the discounted lognormal expectations for every forward, strike, discount factor and standard deviation: their difference is the discounted forward minus strike, each lies between intrinsic value and its cap, each is monotone in volatility, strike and forward, "
 "and at zero volatility or zero strike it equals the discounted intrinsic value.",
 ["inputs"], "every finite non-negative forward and strike (not both zero), non-negative standard deviation and positive discount factor, including the extremes",
 "Tests check a few parameter sets.",
 ["src/math/optionpricing.rs", "src/math/numerics.rs"],
 [("Black76", "src/math/optionpricing.rs")],
 observe=["Black76::call_price/put_price"])

prop("P21", "Instrument prices follow from their definitions on every market and date",
 "A currency is worth one, a zero coupon its discount factor from payment to settlement until it goes ex and nothing after, an equity its spot today and its forward later, a basket the weighted sum of its members, "
 "and a European option the discounted Black-76 value on the forward of its underlying with the variance from the valuation or strike-setting time to expiry. "
 "Pricing several dates at once equals pricing each alone, and put-call parity holds for every underlying including baskets.",
 ["inputs", "configurations"], "every composition of instruments, market, settlement rule and valuation date-time relative to ex, strike and expiry dates",
 "Tests price a few instruments on one market at a few dates.",
 ["src/instruments/*.rs", "src/pricers/selfpricer.rs"],
 [("Priceable::prices", "src/instruments/*.rs"), ("SelfPricer::price", "src/pricers/selfpricer.rs")],
 observe=["Priceable::price/prices", "Pricer::price"])

prop("P22", "Root finding and implied volatility return a true solution or an error",
 "For a function of opposite signs at the ends of the interval the solver returns a point inside it where the function changes sign within the requested tolerance, using no evaluation outside the interval; equal signs or too few iterations give an error, and errors of the function are passed on. "
 "An implied volatility reprices the product to the target within tolerance.",
 ["inputs", "histories"], "every continuous function, interval, tolerance and iteration budget, including those where interpolation steps misbehave",
 "Tests solve a handful of functions, and one of them fails.",
 ["src/math/brent.rs", "src/solvers/*.rs"],
 [("zbrent", "src/math/brent.rs"), ("ImpliedVol::solve", "src/solvers/impliedvol.rs")],
 observe=["the sequence of evaluations made", "returned root"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
