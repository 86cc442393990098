"""What each check runs. Each entry: level, technique, note, run(ctx)."""

import worlds

CHECKS = {}
HOOKS = {"guard": "none", "enable": "no hooks: the checks use the public interface of the crate only", "source_commits": []}
NOT_APPLICABLE = {}


def check(prop, technique, note, level="model_checking", assumptions=(), rule=""):
    def deco(f):
        CHECKS[prop] = dict(run=f, level=level, technique=technique, note=note,
                            assumptions=list(assumptions), rule=rule)
        return f
    return deco


@check("P11", "TLA+ day-walker and text grammar, exhaustively replayed",
       "Every supported date (72,999), and every text of up to four components over a 28-token alphabet, is enumerated by TLC and compared with the library. "
       "Trusts the harness and TLC; text shapes outside the alphabet are not tried.")
def p11(c):
    c.par(lambda: c.tlc("Dates", env={"OUT": "days.ndjson"}),
          lambda: c.tlc("DateText", env={"OUT": "texts.ndjson", "OUT2": "moments.ndjson"}))
    c.conf("dates", ["days.ndjson", "texts.ndjson", "moments.ndjson"])


@check("P09", "TLA+ weighted day-walker, every transition replayed",
       "TLC walks every calendar of the world (fixed awkward ones and seeded random holiday lists) day by day from every start in the window; every count it defines, with five pairs of day fractions, is compared with the library, as are reversed intervals, weights, basis and year fractions. "
       "Bounded to spans of 45 days (plus whole years) from a 60-day window and from shorter ones in 1971, 2000, 2100 and a random year.")
def p09(c):
    worlds.calendars(c, c.path("world.json"), days=120 if c.thorough else 50, years=4, random_cals=40 if c.thorough else 8)
    c.tlc("CalCount", env={"WORLD": "world.json", "OUT": "counts.ndjson"}, consts={"MaxSpan": 90} if c.thorough else None)
    c.conf("cal-count", ["world.json", "counts.ndjson"])


@check("P10", "TLA+ one-step-at-a-time traveller, every transition replayed",
       "TLC moves a traveller one business day (or one weighted calendar day) at a time on every calendar of the world from every start in the window; the library must land where the traveller stands for every number of steps, slip direction and fractional target. "
       "Bounded to 14 business days or 20 calendar days either way (and one stride of 83 business days) from a 60-day window and from shorter ones in 1971, 2000, 2100 and a random year.")
def p10(c):
    worlds.calendars(c, c.path("world.json"), days=100 if c.thorough else 45, years=0, random_cals=30 if c.thorough else 6)
    c.tlc("CalStep", env={"WORLD": "world.json", "OUT": "steps.ndjson"}, consts={"MaxSteps": 40, "MaxDays": 45} if c.thorough else None)
    c.conf("cal-step", ["world.json", "steps.ndjson"])


@check("P07", "TLA+ partial-function table: all transitions replayed, random histories trace-checked",
       "TLC enumerates every sequence of two curve insertions over two instruments, three days around the known-until date and three times of day; each is replayed by every construction route and through JSON with every lookup compared. "
       "Longer random histories recorded from the library are validated by TLC against the same table.")
def p07(c):
    c.par(lambda: (c.tlc("FixingTable", env={"OUT": "tables.ndjson"}), c.conf("fixings", ["tables.ndjson"])),
          lambda: (c.conf("fixings-record", ["trace.ndjson"]), c.trace("FixingTrace", "trace.ndjson")))


@check("P15", "TLA+ exact rational interpolants, every point set and rule pair replayed",
       "For every ordered subset of a grid, every short unordered or duplicated list and seeded random point sets (up to 33 points), with one abscissa missing or out of order or none, with all 25 pairs of extrapolation rules, TLC solves the linear and spline interpolants exactly (checking the spline's defining equations) and the library is compared at quarter points, knots and beyond both ends, over numbers, integers, dates and day fractions and through JSON.",
       assumptions=["splines of more than five points are solved as terms, evaluated in floating point", "comparison tolerance 1e-9 relative"])
def p15(c):
    worlds.interp(c, c.path("world.json"), 400 if c.thorough else 40)
    c.tlc("Interp", env={"WORLD": "world.json", "OUT": "interp.ndjson"})
    c.conf("interp", ["interp.ndjson"])


@check("P13", "TLA+ curve with a stack of bumps, every stack replayed",
       "TLC applies every stack of up to two (three in thorough) bumps of every kind to fixed and seeded random pillar curves and writes rate and time at pillars, between, beside and beyond them as exact terms; the library's rates, log discounts and discount factors over every pair of dates are compared, built by decorators, by bump objects and read back from JSON.",
       assumptions=["comparison tolerance 1e-10 relative", "rates for which the annualised bump leaves a positive growth factor"])
def p13(c):
    worlds.curve_world(c, c.path("world.json"), 40 if c.thorough else 10)
    c.tlc("Curves", env={"WORLD": "world.json", "OUT": "curves.ndjson"}, consts={"MaxBumps": 3} if c.thorough else None)
    c.conf("curves", ["world.json", "curves.ndjson"])


@check("P12", "TLA+ dividend and growth terms, every bumped forward replayed",
       "For seeded random equities (cash, relative and mixed dividends including shared ex dates, ex dates on and before the base date, yield curves, settlement lags over weekends, curves based before the forward) TLC applies every stack of up to two rate, borrow and dividend bumps and writes forward, dividend sums and remaining cash at dates around every event as terms; the library's forward and bootstrap are compared.",
       assumptions=["comparison tolerance 1e-10 relative", "single currency"])
def p12(c):
    worlds.forward_world(c, c.path("world.json"), 350 if c.thorough else 42)
    c.tlc("EqForward", env={"WORLD": "world.json", "OUT": "forwards.ndjson"})
    c.conf("forwards", ["world.json", "forwards.ndjson"])


@check("P20", "TLA+ grid of option parameters, every point and every one-notch raise replayed",
       "TLC visits every point of a grid of forwards, strikes, standard deviations (zero to huge) and discount factors and writes the exact expectation as a term; prices, parity and bounds are compared at every point and the direction of movement along every step of the grid.",
       assumptions=["the erfc of the C library is accurate", "forward and strike not both zero", "tolerance 1e-9 of the larger of forward and strike"])
def p20(c):
    worlds.black_world(c, c.path("world.json"), 12 if c.thorough else 4)
    c.tlc("Black76", env={"WORLD": "world.json", "OUT": "black.ndjson"})
    c.conf("black76", ["black.ndjson"])


@check("P22", "TLA+ bracketing automaton: enumerated functions run, recorded evaluations trace-checked",
       "TLC enumerates piecewise linear functions, intervals, budgets and function failures; the library solves each (and seeded smooth functions), every answer is checked for a change of sign within tolerance, and the recorded evaluations are validated by TLC against an automaton of what a bracketing solver may do. "
       "Implied.tla: on seeded random markets and portfolios, every sequence of two of moving the date, bumping and solving for volatilities; which portfolios can be solved for, and that the volatility found is inside the interval, reprices the portfolio to the target and does so in the pricer, are compared.",
       assumptions=["budgets of 3000 iterations count as enough for 43 bits", "nothing is said of the volatility a pricer is left with; the one found is put there before it is priced"])
def p22(c):
    def roots():
        c.tlc("RootFun", env={"OUT": "problems.ndjson"})
        c.conf("roots", ["problems.ndjson", "trace.ndjson"])
        c.trace("RootTrace", "trace.ndjson", timeout=800)

    def vols():
        worlds.implied_world(c, c.path("world.json"), 300 if c.thorough else 40)
        c.tlc("Implied", env={"WORLD": "world.json", "OUT": "implied.ndjson"}, timeout=3000, xmx="6g")
        c.conf("implied", ["world.json", "implied.ndjson"], timeout=3000)
    c.par(roots, vols)


@check("P14", "TLA+ surface terms under a stack of operations, every stack replayed",
       "TLC applies every stack of up to two (three in thorough) bumps, time evolutions and forward moves to flat and seeded random pillar surfaces on five calendars and writes vols, vol times, displacements and forward variances as terms with the conditions for an answer; the library's surface, built by bump and dynamics objects, by decorators and read back from JSON, is compared.",
       assumptions=["comparison tolerance 1e-9 relative", "pillars in date order", "queries at or after the base date"])
def p14(c):
    worlds.vol_world(c, c.path("world.json"), 60 if c.thorough else 10)
    c.tlc("VolSurface", env={"WORLD": "world.json", "OUT": "vols.ndjson"}, consts={"MaxOps": 3} if c.thorough else None)
    c.conf("vols", ["world.json", "vols.ndjson"])


@check("P21", "TLA+ worth of every kind of instrument as terms, replayed",
       "TLC evaluates currencies, zero coupons, equities, baskets and spot and forward starting options on seeded random markets (pillar and flat surfaces, displaced forwards, dividends, missing data) as of dates up to and beyond expiry; the library's prices, alone, several dates at once and through a pricer, are compared, and put-call parity is checked.",
       assumptions=["comparison tolerance 1e-9 of the underlying's scale", "dates in order, from the valuation date on", "no dividend yield (P12 covers it)"])
def p21(c):
    worlds.pricing_world(c, c.path("world.json"), 200 if c.thorough else 30)
    c.tlc("Pricing", env={"WORLD": "world.json", "OUT": "prices.ndjson"})
    c.conf("pricing", ["world.json", "prices.ndjson"])


def risk(c, part, salt):
    worlds.risk_world(c, c.path("world.json"), 2 if c.thorough else 1, salt=salt)
    worlds.risk_world(c, c.path("walks.json"), 60 if c.thorough else 12, salt=salt + 1, n_bumps=4)

    def all_short():
        c.tlc("MarketRisk", env={"WORLD": "world.json", "OUT": "risk.ndjson"}, timeout=3000, xmx="6g")
        c.conf("risk-" + part, ["world.json", "risk.ndjson"], label="short", timeout=3000)

    def some_long():
        c.tlc("MarketRisk", env={"WORLD": "walks.json", "OUT": "walks.ndjson"}, label="walks", simulate=400 if c.thorough else 60, depth=9,
              consts={"MaxActs": 8}, timeout=3000, xmx="6g")
        c.conf("risk-" + part, ["walks.json", "walks.ndjson"], label="long", timeout=3000)

    def all_few():      # every history of a few bumps, several of them of the same thing
        worlds.undo_world(c, c.path("few.json"), 20 if c.thorough else 5, salt=salt + 2)
        c.tlc("MarketRisk", env={"WORLD": "few.json", "OUT": "few.ndjson"}, label="few", consts={"MaxActs": 4, "Full": "FALSE"}, timeout=3000, xmx="4g")
        c.conf("risk-undo", ["few.json", "few.ndjson"], label="few", timeout=3000)

    def each_once():    # every bump on many markets
        worlds.risk_world(c, c.path("many.json"), 200 if c.thorough else 25, salt=salt + 3)
        c.tlc("MarketRisk", env={"WORLD": "many.json", "OUT": "many.ndjson"}, label="many", consts={"MaxActs": 1}, timeout=3000, xmx="4g")
        c.conf("risk-values", ["many.json", "many.ndjson"], label="many", timeout=3000)
    c.par(all_short, some_long, all_few if part == "undo" else each_once)


@check("P01", "TLA+ bumps, restores and save areas, replayed on markets, prefetched contexts and pricers",
       "MarketRisk.tla: every sequence of up to two bumps (18 of them, saved or not), restores, clearings and moves of the date on a random market with a random portfolio, every history of four over a few bumps of the same data, and random walks of eight; wherever the specification says a state equals an earlier one, every spot, discount factor, forward, volatility and price of market, prefetched context and pricer is bit for bit what it was.",
       assumptions=["a bump that is not saved is not mixed with saved ones of other data (it is not undone)"])
def p01(c):
    risk(c, "undo", 19)


@check("P02", "TLA+ bumped markets as terms, replayed on markets, prefetched contexts and pricers",
       "MarketRisk.tla: after every sequence of up to two bumps, restores and moves of the date, and random walks of eight, every spot, discount factor, forward, volatility and price is the specification's, what does not depend on the bumped data has not changed by a bit, and the bumped pricer agrees with one built afresh.",
       assumptions=["comparison tolerance 1e-9 of the underlying's scale for prices and vols, 1e-11 for forwards"])
def p02(c):
    risk(c, "values", 29)


@check("P03", "TLA+ Monte-Carlo paths, payoffs and prices under bumps, restores and the passage of time, replayed on pricers",
       "MonteCarlo.tla: every sequence of up to two (and random walks of six) bumps, restores, clearings, moves of the date and passages of time, over a strike date or not, on random markets with one option; every point of every path, every payoff and the price are the specification's, given the random numbers the pricer drew (recovered from its paths at several flat vols); wherever the specification says a state equals an earlier one, or that nothing the paths depend on moved, they agree bit for bit. Also paths of several equities along random observation schedules from given random numbers, the numbers of steps, and the moments of what is drawn.",
       assumptions=["at most six steps to an observation (beyond that payoffs, prices and undoing are still checked, paths are not predicted)",
                    "one option per pricer, as the library prices no correlated assets; tolerance 1e-8 of the forward for predicted paths, 1e-9 for paths from given numbers"])
def p03(c):
    worlds.mc_world(c, c.path("world.json"), 100 if c.thorough else 14)
    worlds.mc_world(c, c.path("walks.json"), 400 if c.thorough else 40, n_bumps=5, n_walks=3, salt=1)

    def all_short():
        c.tlc("MonteCarlo", env={"WORLD": "world.json", "OUT": "mc.ndjson"}, timeout=3000, xmx="6g")
        c.conf("montecarlo", ["world.json", "mc.ndjson"], label="short", timeout=3000)

    def some_long():
        c.tlc("MonteCarlo", env={"WORLD": "walks.json", "OUT": "walks.ndjson"}, label="walks", simulate=1500 if c.thorough else 120, depth=7,
              consts={"MaxActs": 6}, timeout=3000, xmx="6g")
        c.conf("montecarlo", ["walks.json", "walks.ndjson"], label="long", timeout=3000)
    c.par(all_short, some_long)


def reports(c, part, salt):
    worlds.report_world(c, c.path("world.json"), 60 if c.thorough else 12, salt=salt)
    worlds.report_world(c, c.path("walks.json"), 300 if c.thorough else 50, n_moves=4, n_gens=7, salt=salt + 1)

    def all_short():
        c.tlc("Reports", env={"WORLD": "world.json", "OUT": "reports.ndjson"}, timeout=3000, xmx="6g")
        c.conf(part, ["world.json", "reports.ndjson"], label="short", timeout=3000)

    def some_long():
        c.tlc("Reports", env={"WORLD": "walks.json", "OUT": "walks.ndjson"}, label="walks", simulate=800 if c.thorough else 100, depth=6,
              consts={"MaxActs": 5}, timeout=3000, xmx="6g")
        c.conf(part, ["walks.json", "walks.ndjson"], label="long", timeout=3000)
    c.par(all_short, some_long)


@check("P04", "TLA+ greeks as differences of bumped worths, replayed",
       "Reports.tla: seeded random portfolios of options of every kind, baskets of them, equities and coupons, with random spot and vol bump sizes; every sequence of two reports, bumps and moves of the date, and random walks of five. Deltas, gammas, vegas and volgas, also of reports inside time-bumped reports, are compared with the specification's up, down and unbumped worths; the price is bit for bit what it was before the report, also once the save area has been restored, and the report comes out the same again.",
       assumptions=["differences compared to 3e-10 of the portfolio's scale", "the save area handed to a generator is empty", "nothing is said of a pricer after a report that failed"])
def p04(c):
    reports(c, "greeks", 0)


@check("P05", "TLA+ passage of time as fixings and evolved markets, replayed",
       "Reports.tla: seeded random portfolios whose options fix on, before and after the dates moved to, under sticky spot and sticky forward; every sequence of two moves, bumps and reports, and random walks of five. Prices after a move and the price, theta and number of reports of time-bumped reports, nested ones too, are compared with the specification's worth of the fixed portfolio on the evolved market; the pricer reported on is left as it was.",
       assumptions=["prices compared to 1e-10 of the portfolio's scale", "vols stay with their expiries (the only dynamics instruments ask for)"])
def p05(c):
    reports(c, "time", 50)


@check("P06", "TLA+ lifecycle of holdings as fixings are learnt, replayed",
       "Lifecycle.tla: seeded random holdings of cash and physically settled spot and forward starting options, baskets of them and options on those; every sequence of up to three stages of learning fixings, some missing. TLC checks that stages make no difference; what fix and fix_all make of the holdings is compared with the specification's, instrument by instrument.",
       assumptions=["the name given to a fixed basket is the library's business", "options struck at a rounded fraction of a fixing equal to the expiry fixing are not compared"])
def p06(c):
    worlds.life_world(c, c.path("world.json"), 3000 if c.thorough else 250)
    c.tlc("Lifecycle", env={"WORLD": "world.json", "OUT": "life.ndjson"}, timeout=3000)
    c.conf("lifecycle", ["world.json", "life.ndjson"], timeout=3000)


@check("P08", "TLA+ trace validation of declarations against what pricing and fixing use",
       "DependencyTrace.tla judges recorded runs: what instruments of every kind, alone, nested and together, declare; what the collector then lists (everything declared, once, to the last date); and what pricing and fixing ask for, look up and depend on. The harness also prices from a market stripped of everything that is not listed.",
       assumptions=["instruments are priced on the valuation date, as pricers do"])
def p08(c):
    worlds.deps_world(c, c.path("world.json"), 400 if c.thorough else 60)
    c.conf("deps-record", ["world.json", "trace.ndjson"])
    c.tlc("DependencyTrace", env={"TRACE": "trace.ndjson", "OUT": "refused.ndjson"}, timeout=3000)
    c.refused("refused.ndjson", "DependencyTrace")


@check("P17", "TLA+ scopes, documents and object identity, every history replayed on two threads",
       "Dedup.tla: seeded random graphs of currencies, equities, options and nested baskets that share parts; every sequence of three, and random sequences of twelve, of entering scopes of every mode, leaving them by return, error or panic several at a time, writing, reading back and reading with objects supplied, on two threads. The text written, the content read, which objects are the very same and which are new, what is refused, and the mode and objects in force on each thread after every step are compared with the library's.",
       assumptions=["what a scope knows after a write or read that failed half way is left open", "identity is seen where instruments show what they refer to: currencies, underlyings and equities in baskets"])
def p17(c):
    worlds.dedup_world(c, c.path("world.json"), 12 if c.thorough else 2, n_scopes=4)
    worlds.dedup_world(c, c.path("walks.json"), 1000 if c.thorough else 80, salt=1)

    def all_short():
        c.tlc("Dedup", env={"WORLD": "world.json", "OUT": "short.ndjson"}, consts={"Threads": "{1}"}, timeout=3000, xmx="6g")
        c.conf("dedup", ["world.json", "short.ndjson"], label="short", timeout=3000)

    def some_long():
        c.tlc("Dedup", env={"WORLD": "walks.json", "OUT": "walks.ndjson"}, label="walks", simulate=8000 if c.thorough else 500, depth=13,
              consts={"MaxActs": 12}, timeout=3000, xmx="6g")
        c.conf("dedup", ["walks.json", "walks.ndjson"], label="long", timeout=3000)
    c.par(all_short, some_long)


@check("P19", "TLA+ definition of equal results, every pair a few edits apart replayed",
       "ReportCompare.tla: fixed and seeded random sets of results of every kind, nested ones too; every pair of sets reached by up to two changes (numbers inside and outside tolerance, ids, bump sizes, kinds, reports missing, extra or swapped, at any depth, on either side), under random tolerances and none. TLC checks that being the same is symmetric and reflexive; the library's verdict is compared both ways round, directly and through handles.",
       assumptions=["differences of exactly the tolerance are not tried unless it is zero"])
def p19(c):
    worlds.compare_world(c, c.path("world.json"), 30 if c.thorough else 6, 5 if c.thorough else 2)
    c.tlc("ReportCompare", env={"WORLD": "world.json", "OUT": "pairs.ndjson"}, timeout=3000, xmx="6g")
    c.conf("compare", ["world.json", "pairs.ndjson"], timeout=3000)


@check("P16", "TLA+ schema of every document; recorded documents checked against it, every single damage it derives replayed",
       "Serial.tla: how each of 20 kinds of object (7 instruments, 4 calendars, 3 rules, 5 curves, 7 surfaces, market data, fixings, factories, generators, bumps, reports, interpolators) is written, and what of a document is read. The library writes objects drawn from the seed, of every kind and nesting; TLC judges each document, and derives every document that differs in one place: a field gone, a value of another type, another tag, two, none, a list longer or shorter or out of order, keys in another order. Each is read through text, stream, value and facade: refused, or read and written again as it was. What is read back is also asked the questions users ask (prices, dates, forwards, volatilities) beside the original, and texts are cut and continued.",
       assumptions=["numbers are finite", "what a constructor would refuse but the document can say (a negative strike) is left open", "sticky-delta volatility bumps are not written (they are transient)"])
def p16(c):
    n = 60 if c.thorough else 14
    c.conf("serial-record", ["docs.ndjson", "trees.ndjson", "=%d" % n], label="record", timeout=1500)
    total = sum(1 for _ in open(c.path("trees.ndjson")))

    def damaged(k):
        lo, hi = total * k // 6 + 1, total * (k + 1) // 6
        c.tlc("Serial", env={"TRACE": "trees.ndjson", "OUT": "damage%d.ndjson" % k, "BAD": "bad%d.ndjson" % k}, label="Serial%d" % k,
              consts={"FirstDoc": lo, "LastDoc": hi}, timeout=3000, xmx="4g")
        c.refused("bad%d.ndjson" % k, "Serial")
        c.conf("serial", ["docs.ndjson", "damage%d.ndjson" % k], label="damage%d" % k, timeout=3000)
    c.par(*[lambda k=k: damaged(k) for k in range(6)])


@check("P18", "TLA+ handles and calls of the C interface, every history replayed in a watched process",
       "Handles.tla: handles of every kind, good and bad texts (cut short, unknown tags, text after the end, bytes that are not text, very deep, nul in names), every call with every choice of handles, one of them of the wrong kind or an error, and random sequences of calls with handles freed, copied and compared on the way. Calls are made in a process of their own whose stdout is full: a crash, memory used after it is freed or freed twice, or left over at the end is noticed. Which calls fail, the message, which message is handed on and the results are compared with the specification's and with the library called directly.",
       assumptions=["handles that have been freed are not used", "Monte-Carlo results are compared by shape, as they are drawn afresh"])
def p18(c):
    worlds.handles_world(c, c.path("world.json"), 12 if c.thorough else 3)

    def all_short():
        c.tlc("Handles", env={"WORLD": "world.json", "OUT": "short.ndjson"}, timeout=3000, xmx="6g")
        c.conf("cint", ["world.json", "short.ndjson"], label="short", timeout=3000)

    def some_long(k):
        w, o = "walks%d.json" % k, "walks%d.ndjson" % k
        worlds.handles_world(c, c.path(w), 20, salt=k)
        c.tlc("Handles", env={"WORLD": w, "OUT": o}, label="walks%d" % k, simulate=4000 if c.thorough else 300, depth=14,
              consts={"MaxActs": 12, "Narrow": "TRUE"}, timeout=3000, xmx="3g")
        c.conf("cint", [w, o], label="long%d" % k, timeout=3000)
    c.par(all_short, *[lambda k=k: some_long(k) for k in (1, 2, 3)])
