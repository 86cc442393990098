"""Inputs for the specifications: fixed worlds plus worlds drawn from VERIF_SEED."""
import datetime, json, math, random

EPOCH = datetime.date(1968, 5, 23)


def serial(y, m, d):
    return (datetime.date(y, m, d) - EPOCH).days


def weekday(n):
    return (n + 3) % 7


def firsts(lo, hi):
    out = []
    for y in range(1968, 2169):
        for m in range(1, 13):
            n = (datetime.date(y, m, 1) - EPOCH).days
            if lo <= n <= hi:
                out.append(n)
    return out


def calendars(c, path, days, years, random_cals):
    """A window around a year end with awkward holidays, and random holiday lists."""
    rng = random.Random(c.seed * 7919 + 1)
    lo = serial(2017, 12, 4)
    hi = lo + days
    easterish = [serial(2017, 12, 25), serial(2017, 12, 26), serial(2018, 1, 1), serial(2018, 3, 30), serial(2018, 4, 2)]
    block = [d for d in range(serial(2017, 12, 18), serial(2018, 1, 3)) if weekday(d) < 5]
    monthend = [serial(2017, 12, 28), serial(2017, 12, 29), serial(2018, 1, 2), serial(2018, 1, 31), serial(2017, 11, 30)]
    cals = [dict(kind="every", inner="every", hols=[], w=0),
            dict(kind="weekday", inner="weekday", hols=[], w=0),
            dict(kind="holidays", inner="holidays", hols=easterish, w=0),
            dict(kind="holidays", inner="holidays", hols=block, w=0),
            dict(kind="holidays", inner="holidays", hols=monthend, w=0),
            dict(kind="vol", inner="holidays", hols=easterish, w=1),
            dict(kind="vol", inner="weekday", hols=[], w=2),
            dict(kind="vol", inner="every", hols=[], w=1),
            dict(kind="vol", inner="holidays", hols=block, w=3),
            dict(kind="vol", inner="holidays", hols=monthend, w=0),
            dict(kind="vol", inner="weekday", hols=[], w=4)]
    # elsewhere in the supported range: leap days, or none, and a random spot
    far = [(serial(y, m, d), serial(y, m, d) + 7) for y, m, d in ((1971, 12, 27), (2000, 2, 25), (2100, 2, 25), (rng.randint(1970, 2160), rng.randint(1, 12), rng.randint(1, 28)))]
    for i in range(random_cals):
        dens = rng.choice([0.05, 0.15, 0.4])
        hols = [d for a, b in [(lo, hi)] + far for d in range(a - 60, b + 400) if weekday(d) < 5 and rng.random() < dens]
        kind = rng.choice(["holidays", "vol"])
        cals.append(dict(kind=kind, inner="holidays", hols=hols, w=rng.choice([0, 1, 2, 3]) if kind == "vol" else 0))
    for k in cals:
        k["hols"] = sorted(k["hols"])
    starts = [d for a, b in [(lo, hi)] + far for d in range(a, b + 1)]
    months = [f for a, b in [(lo, hi)] + far for f in firsts(a - 400, b + 1000)]
    json.dump(dict(cals=cals, starts=starts, years=years, firsts=months), open(path, "w"))


def interp(c, path, n_random):
    """Point sets: every ordered subset of a small grid, every short list in any order, and
    random sets within the range in which the specification's rationals stay exact."""
    import itertools
    rng = random.Random(c.seed * 104729 + 5)
    sets = []
    for n in range(1, 5):
        for xs in itertools.combinations([0, 1, 3, 4], n):
            for ys in ([2, -1, 3, 3], [0, 1, 0, -2], [5, 5, 5, 5]):
                sets.append(dict(x=list(xs), y=ys[:n]))
    for n in range(0, 4):
        for xs in itertools.product([0, 1, 2], repeat=n):
            if any(xs[i] >= xs[i + 1] for i in range(n - 1)) or n == 0:
                sets.append(dict(x=list(xs), y=[1, 3, -2][:n]))
    sets += [dict(x=[0, 1, 2, 2, 3], y=[1, 2, 3, 4, 5]), dict(x=[0, 1, 2, 4, 3], y=[1, 2, 3, 4, 5]), dict(x=[1, 0, 2, 3, 4], y=[1, 2, 3, 4, 5])]
    for _ in range(n_random):
        n = rng.choice([2, 3, 3, 4, 5])
        xs = [rng.randint(-6, 3)]
        for _ in range(n - 1):
            xs.append(xs[-1] + rng.randint(1, 4))
        sets.append(dict(x=xs, y=[rng.randint(-9, 9) for _ in range(n)]))
    for n in range(1, 5):
        sets += [dict(x=[0, 1, 3, 4][:n], y=[2, -1, 3, 3][:n], hole=at) for at in range(1, n + 1)]
    # long lists, evenly spaced, uneven, or out of order at one place near the end
    for k in range(6 + n_random // 20):
        n = rng.choice([6, 7, 8, 9, 12, 16, 17, 31]) if k else 33
        step = (lambda: 2) if k % 3 == 0 else (lambda: rng.randint(1, 12))
        xs = [rng.randint(-40, 3)]
        for _ in range(n - 1):
            xs.append(xs[-1] + step())
        sets.append(dict(x=xs, y=[rng.randint(-90, 90) for _ in range(n)]))
        at = rng.randint(n // 2, n - 2)
        bad = xs[:]
        bad[at + 1] = xs[at] - rng.choice([0, 0, 1])
        sets.append(dict(x=bad, y=[rng.randint(-9, 9) for _ in range(n)]))
    for s in sets:
        s.setdefault("hole", 0)
        s["named"] = len(s["x"]) > 5 or not stays_exact(s["x"], s["y"])
    json.dump(dict(sets=sets), open(path, "w"))


def stays_exact(xs, ys):
    """Whether TLC's integers are wide enough for the slopes of the spline (the elimination of Interp.tla)."""
    n = len(xs)
    if n < 2 or any(xs[a] >= xs[a + 1] for a in range(n - 1)):
        return True

    def fit(v):
        if abs(v) >= 2 ** 31 - 1:
            raise OverflowError
        return v

    def low(p, q):
        g = math.gcd(fit(p), fit(q))
        return (0, 1) if p == 0 else (p // g * (-1 if q < 0 else 1), abs(q) // g)
    add = lambda a, b: low(fit(a[0] * b[1]) + fit(b[0] * a[1]), a[1] * b[1])
    sub = lambda a, b: add(a, (-b[0], b[1]))

    def mul(a, b):
        x, y = low(a[0], b[1]), low(b[0], a[1])
        return low(x[0] * y[0], x[1] * y[1])
    div = lambda a, b: mul(a, low(b[1], b[0]))
    whole = lambda v: (v, 1)
    h = [xs[a + 1] - xs[a] for a in range(n - 1)]
    sl = [low(ys[a + 1] - ys[a], h[a]) for a in range(n - 1)]
    try:
        for left in (True, False):
            pq = [(mul((3, 2), sl[0]), (1, 2)) if left else (whole(0), whole(0))]
            for a in range(1, n - 1):
                den = sub(mul(whole(2), add((1, h[a - 1]), (1, h[a]))), div(pq[-1][1], whole(h[a - 1])))
                rhs = mul(whole(3), add(div(sl[a - 1], whole(h[a - 1])), div(sl[a], whole(h[a]))))
                pq.append((div(sub(rhs, div(pq[-1][0], whole(h[a - 1]))), den), div((1, h[a]), den)))
            for right in (True, False):
                k = [div(sub(mul(whole(3), sl[-1]), pq[-1][0]), sub(whole(2), pq[-1][1])) if right else whole(0)]
                for a in range(n - 2, -1, -1):
                    k.insert(0, sub(pq[a][0], mul(pq[a][1], k[0])))
                for a in range(n - 1):
                    div(sub(sub(mul(whole(6), sl[a]), mul(whole(4), k[a])), mul(whole(2), k[a + 1])), whole(h[a]))
                    div(add(sub(mul(whole(2), k[a]), mul(whole(6), sl[a])), mul(whole(4), k[a + 1])), whole(h[a]))
                    fit(h[a] * k[a][0]), fit(h[a] * k[a + 1][0])
    except OverflowError:
        return False
    return True


RULES = ["Flat", "Natural", "Zero", "Throw"]


def curve(rng, base, pillars, spread=400, rules=RULES, rates=(-50, 900)):
    xs = [base + rng.choice([0, 0, 1, 7, -3, 30])]
    for _ in range(pillars - 1):
        xs.append(xs[-1] + rng.randint(1, spread))
    if pillars == 1:
        rules = [r for r in rules if r != "Natural"]
    return dict(kind="act365", base=base, x=xs, y=[rng.randint(*rates) for _ in xs], left=rng.choice(rules), right=rng.choice(rules))


def curve_world(c, path, n_random):
    rng = random.Random(c.seed * 15485863 + 3)
    base = serial(2018, 6, 1)
    cs = [dict(kind="zero", base=base, x=[], y=[], left="Flat", right="Flat"),
          dict(kind="act365", base=base, x=[base], y=[500], left="Flat", right="Flat"),
          dict(kind="act365", base=base, x=[base + 3], y=[500], left="Natural", right="Natural"),
          dict(kind="act365", base=base, x=[base, base + 14, base + 56, base + 112, base + 224], y=[500, 800, 900, 850, 820], left="Flat", right="Flat"),
          dict(kind="act365", base=base + 20, x=[base, base + 30], y=[100, 400], left="Natural", right="Flat"),
          dict(kind="act365", base=base, x=[base + 5, base + 30], y=[0, 400], left="Zero", right="Natural"),
          dict(kind="act365", base=base, x=[base + 5, base + 6, base + 2000], y=[300, -200, 400], left="Throw", right="Throw")]
    for _ in range(n_random):
        cs.append(curve(rng, base, rng.randint(1, 5)))
    for k in cs:
        ds = {k["base"], k["base"] + 1, k["base"] - 1, k["base"] + 365, k["base"] + 731}
        for x in k["x"]:
            ds |= {x, x + 1, x - 1}
        for a, b in zip(k["x"], k["x"][1:]):
            ds.add((a + b) // 2)
        k["dates"] = sorted(ds)
    json.dump(dict(curves=cs), open(path, "w"))


def dividends(rng, base, n, spread=120, unordered=False):
    out, ex = [], base + rng.choice([-40, -1, 0, 0, 1, 5])
    for _ in range(n):
        cash = rng.choice([0, 50, 120, 300, 75])
        rel = rng.choice([0, 0, 20, 100, 250])
        if cash == 0 and rel == 0:
            cash = 100
        out.append(dict(cash=cash, rel=rel, ex=ex, pay=ex + rng.choice([0, 2, 14, 30])))
        ex += rng.choice([0, 1, rng.randint(5, spread)])
    return out


def equity(rng, base, n_divs, rules=("Flat", "Natural")):
    divs = dividends(rng, base, n_divs)
    hwm = base + rng.choice([30, 200, 800, 1500])
    last = max([base] + [d["ex"] for d in divs])
    kind = rng.choice(["zero", "yield", "yield", "overlap"])
    if kind == "zero":
        y = dict(kind="zero", base=base + rng.choice([-10, 0, 10]), x=[], y=[], left="Flat", right="Flat")
    else:
        yb = last + rng.choice([0, 1, 100])
        if kind == "overlap" and n_divs and rng.random() < 0.3:
            yb = last - 1
        y = curve(rng, yb, rng.randint(1, 3), rules=["Flat"], rates=(10, 300))
        y["x"] = [x - y["x"][0] + yb for x in y["x"]]
        y["left"] = "Zero"
    return dict(base=base, spot=rng.randint(5000, 20000), lag=rng.choice([-1, 0, 2, 2, 3]),
                rate=curve(rng, base - rng.choice([0, 0, 3, 11]), rng.randint(1, 4), rules=rules),
                borrow=curve(rng, base - rng.choice([0, 0, 3, 11]), rng.randint(1, 3), rules=rules, rates=(-20, 200)),
                divs=divs, hwm=hwm, **{"yield": y})


def forward_world(c, path, n_random):
    rng = random.Random(c.seed * 32452843 + 9)
    base = serial(2018, 6, 1)
    es = []
    for n in range(n_random):
        e = equity(rng, base + rng.choice([0, 1, 2, 3, 27]), [0, 1, 1, 2, 3, 4, 5][n % 7])
        # sometimes only proportional dividends from some point on, and a high water mark at or next to one of them
        if e["divs"] and rng.random() < 0.5:
            for v in e["divs"][rng.randrange(len(e["divs"])):]:
                v.update(cash=0, rel=v["rel"] or 150)
            e["hwm"] = max(e["base"], rng.choice([v["ex"] for v in e["divs"]]) + rng.choice([-1, 0, 0, 0, 1]))
        ds = {e["base"], e["base"] + 1, e["base"] + 2, e["hwm"], e["hwm"] + 1, e["hwm"] - 1, e["base"] + 365}
        for v in e["divs"]:
            ds |= {x for x in (v["ex"], v["ex"] - 1, v["ex"] + 1, v["pay"]) if x >= e["base"]}
        if e["yield"]["kind"] != "zero":
            ds |= {e["yield"]["base"], e["yield"]["base"] + 50}
        e["dates"] = sorted(x for x in ds if x >= e["base"])
        es.append(e)
    json.dump(dict(equities=es), open(path, "w"))


def black_world(c, path, n):
    rng = random.Random(c.seed * 49979687 + 11)
    val = lambda p: float("%de%d" % tuple(p))
    amounts = [[0, 0], [1, -150], [1, -6], [1, 0], [50, 0], [99, 0], [9999, -2], [99997, -3], [999999, -4], [100, 0], [10000003, -5], [1005, -1], [110, 0], [250, 0], [1, 6], [1, 150]]
    devs = [[0, 0], [1, -300], [1, -9], [1, -7], [1, -6], [1, -5], [1, -4], [1, -3], [1, -2], [5, -2], [2, -1], [5, -1], [1, 0], [3, 0], [10, 0], [80, 0]]
    dfs = [[3, -1], [99, -2], [1, 0], [102, -2]]
    fs = amounts + [[rng.randint(1000, 30000), -2] for _ in range(n)]
    ks = amounts + [[rng.randint(1000, 30000), -2] for _ in range(n)]
    ss = devs + [[rng.randint(1, 20000), -4] for _ in range(n)]
    json.dump({k: sorted(map(list, {tuple(p) for p in v}), key=val) for k, v in dict(f=fs, k=ks, s=ss, d=dfs).items()}, open(path, "w"))


def vol_calendars():
    hols = [serial(2018, 6, 8), serial(2018, 7, 4), serial(2018, 7, 5), serial(2018, 8, 27), serial(2018, 12, 25), serial(2018, 12, 26), serial(2019, 1, 1)]
    return [dict(kind="every", inner="every", hols=[], w=0),
            dict(kind="weekday", inner="weekday", hols=[], w=0),
            dict(kind="holidays", inner="holidays", hols=hols, w=0),
            dict(kind="vol", inner="holidays", hols=hols, w=1),
            dict(kind="vol", inner="weekday", hols=[], w=2)]


def pillar_surface(rng, base, cal, n, splines=True, spot=10000, assume=None, frac=True):
    """Pillars with vols that keep variance rising in most places, but not always."""
    fr = lambda: rng.choice([0, 0, 5, 16]) if frac else 0
    d, pillars, vol = base + rng.choice([0, 7, 30, 90]), [], rng.randint(1500, 4000)
    for a in range(n):
        if not splines or rng.random() < 0.2:
            x, y = [], [vol]
        else:
            x = sorted(rng.sample(range(spot * 6 // 10, spot * 14 // 10, 500), rng.choice([3, 3, 4, 5])))
            y = [vol + rng.randint(-400, 400) - (k - spot) * rng.choice([0, 1, 3]) // 40 for k in x]
        pillars.append(dict(d=d, f=fr(), x=x, y=y))
        d += rng.choice([1, 2, 30, 90, 180, 365])
        vol = max(300, vol + rng.choice([-700, -200, 0, 100, 300]))
    if splines and pillars and not any(p["x"] for p in pillars):
        pillars[0]["x"], pillars[0]["y"] = [spot * 8 // 10, spot, spot * 12 // 10], [vol + 200, vol, vol - 100]
    if splines:
        for p in pillars:
            if not p["x"]:
                p["x"], p["y"] = [spot * 9 // 10, spot * 11 // 10], p["y"] * 2
    line = lambda v: dict(x=[base, base + 180, base + 720], y=v, left="Flat", right=rng.choice(["Flat", "Natural"]))
    return dict(kind="pillar", tag="", cal=cal, base=base, bf=fr(), vol=0, pillars=pillars,
                fwd=line([spot, spot + rng.randint(-300, 500), spot + rng.randint(-500, 900)]),
                divs=line([rng.randint(300, 900), rng.randint(100, 300), 0]),
                assume=assume or rng.choice(["NoCashDivs", "IndependentLogNormals", "FixedDivs", "FixedDivs", "JumpDivs"]))


def flat_surface(rng, base, cal, bf=0):
    return dict(kind="flat", tag="", cal=cal, base=base, bf=bf, vol=rng.randint(500, 5000), pillars=[],
                fwd=dict(x=[], y=[], left="Flat", right="Flat"), divs=dict(x=[], y=[], left="Flat", right="Flat"), assume="NoCashDivs")


def vol_world(c, path, n_random):
    rng = random.Random(c.seed * 67867967 + 13)
    base = serial(2018, 6, 1)      # a Friday
    cals = vol_calendars()
    ss = [flat_surface(rng, base, 1), flat_surface(rng, base, 4, 5), flat_surface(rng, base, 3, 16),
          pillar_surface(rng, base, 3, 0),
          pillar_surface(rng, base + 1, 2, 2)]
    # two pillars over a weekend, on a calendar for which no time passes between them
    wk = pillar_surface(rng, base, 2, 3)
    wk["pillars"][0]["d"], wk["pillars"][1]["d"], wk["pillars"][2]["d"] = base + 8, base + 9, base + 40
    for p in wk["pillars"]:
        p["f"] = 0
    wk["pillars"][1]["x"], wk["pillars"][1]["y"] = wk["pillars"][0]["x"], wk["pillars"][0]["y"]
    wk["fwd"]["y"] = [10000, 10000, 10000]
    ss.append(wk)
    for n in range(n_random):
        ss.append(pillar_surface(rng, base + rng.choice([0, 1, 3]), 1 + n % len(cals), 1 + n % 4, splines=n % 5 != 4))
    for k in ss:
        b = k["base"]
        ms = {(b, k["bf"]), (b, 16), (b + 1, 0), (b + 2, 0), (b + 14, 5), (b + 500, 0)}
        for p in k["pillars"]:
            ms |= {(p["d"], p["f"]), (p["d"] + 1, 0), (p["d"] + 20, 16), (p["d"] - 1, 5)}
        for p, q in zip(k["pillars"], k["pillars"][1:]):
            ms.add(((p["d"] + q["d"]) // 2, 10))
        ms = sorted(m for m in ms if m >= (b, k["bf"]))
        if len(ms) > 9:
            ms = sorted(rng.sample(ms, 9))
        k["dates"] = [dict(d=d, f=f) for d, f in ms]
        k["strikes"] = [8000, 10000, rng.randint(9000, 12500)]
        ps = []
        for _ in range(6):
            a = b + rng.choice([0, 1, 5, 30, 100, 200])
            e = a + rng.choice([0, 1, 5, 30, 100, 365])
            f = rng.choice([0, 0, 16, 5])
            g = f if e == a else rng.choice([0, 0, 16, 5])
            ps.append(dict(d=a, f=f, e=e, g=g, k=rng.choice([8500, 10000, 11000])))
        k["pairs"] = ps
    ops = [dict(o="par", n=150, m=0), dict(o="par", n=-1800, m=0), dict(o="ts", n=100, m=8), dict(o="ts", n=-40, m=100),
           dict(o="rep", n=2200, m=0), dict(o="ce", n=10, m=0), dict(o="ce", n=1, m=0), dict(o="re", n=10, m=0), dict(o="re", n=37, m=0),
           dict(o="sd", n=13000, m=0), dict(o="sd", n=7500, m=0), dict(o="sd", n=10000, m=0)]
    json.dump(dict(cals=cals, surfaces=ss, ops=ops), open(path, "w"))


def smooth_surface(rng, base, cal, n, spot, assume, tag):
    """A pillar surface that can be built: the same skew on every pillar, vols not falling."""
    d, pillars, vol = base + rng.choice([0, 7, 30]), [], rng.randint(1500, 3000)
    xs = [130]
    while xs[0] > 105 or xs[-1] < 95:
        xs = sorted(rng.sample(range(70, 131, 5), rng.choice([3, 4, 5])))
    skew = [-(x - 100) * rng.choice([0, 4, 8]) + rng.randint(-30, 30) for x in xs]
    for _ in range(n):
        pillars.append(dict(d=d, f=16 if d == base else rng.choice([0, 16]), x=[spot * x // 100 for x in xs], y=[vol + s for s in skew]))
        d += rng.choice([30, 90, 180, 365])
        vol += rng.choice([0, 50, 150])
    line = lambda v: dict(x=[base, base + 180, base + 720], y=v, left="Flat", right="Flat")
    return dict(kind="pillar", tag=tag, cal=cal, base=base, bf=rng.choice([0, 0, 4]), vol=0, pillars=pillars,
                fwd=line([spot, spot + rng.randint(-100, 100), spot + rng.randint(-100, 200)]),
                divs=line([rng.randint(300, 900), rng.randint(100, 300), 0]), assume=assume)


def some_market(rng, cals, date, ids=("BP", "GSK", "VOD"), basket="BSK", lines=("Flat",)):
    """Market data for a few equities, three discount curves and a basket's volatility."""
    zero = dict(kind="zero", base=date, x=[], y=[], left="Flat", right="Flat")
    m = dict(date=date, spot={}, rate={}, borrow={}, div={}, vol={})
    for c in ("LSE", "OPT", "GBP", "XX"):
        m["rate"][c] = curve(rng, date - rng.choice([0, 0, 3, 11]), rng.randint(1, 4), rules=["Flat"], rates=(-30, 700))
    for a in ids:
        m["spot"][a] = rng.randint(6000, 15000)
        m["borrow"][a] = curve(rng, date - rng.choice([0, 0, 5]), rng.randint(1, 3), rules=["Flat"], rates=(-20, 150))
        m["div"][a] = {"divs": dividends(rng, date, rng.choice([0, 1, 3, 4])), "yield": zero}
    for a in ids + ((basket,) if basket else ()):
        spot = m["spot"].get(a, 20000)
        base = date + rng.choice([0, 0, 0, -1, -4, -30, 2])
        if rng.random() < 0.35:
            m["vol"][a] = flat_surface(rng, base, rng.randint(1, len(cals)), rng.choice([0, 16]))
            m["vol"][a]["tag"] = a
        else:
            m["vol"][a] = smooth_surface(rng, base, rng.randint(1, len(cals)), rng.randint(1, 4), spot,
                                         rng.choice(["NoCashDivs", "IndependentLogNormals", "FixedDivs", "FixedDivs", "JumpDivs"]), a)
    return m


def collide(rng, m):
    """Renames some things so that what is of different kinds has the same name, or one name begins another."""
    credit = dict(rng.choice([[], [("OPT", "BP")], [("LSE", "BP")], [("OPT", "GSK"), ("LSE", "VOD")], [("OPT", "LSE2")]]))
    equity = dict(rng.choice([[], [("VOD", "BP2")], [("GSK", "B")], [("VOD", "LSE")]]))
    nil = rng.choice(["NIL", "GBP", "B", "O0"])
    of = lambda d: lambda x: d.get(x, x)
    c, e = of(credit), of(equity)
    m["rate"] = {c(k): v for k, v in m["rate"].items()}
    for kind in ("spot", "borrow", "div", "vol"):
        m[kind] = {e(k): v for k, v in m[kind].items()}
    for q in m["insts"]:
        q["credit"] = c(q["credit"])
        if q["kind"] == "equity":
            q["id"] = e(q["id"])
    for f in m.get("fixes", []):
        f["id"] = e(f["id"])
    for b in m.get("bumps", []):
        if b["id"] == "NIL":
            b["id"] = nil if nil not in m["rate" if b["k"] == "rate" else "spot"] else "NIL"
        else:
            b["id"] = (c if b["k"] == "rate" else e)(b["id"])
    return m


def pricing_world(c, path, n_markets):
    rng = random.Random(c.seed * 86028121 + 17)
    cals = vol_calendars()
    ms = []
    for n in range(n_markets):
        date = serial(2018, 6, 1) + rng.choice([0, 1, 2, 5, 40, 200, 637, 30000])
        m = some_market(rng, cals, date, ids=("BP", "GSK", "VOD"))
        for a in ("BS2", "PEN", "LSE"):       # one named like a credit
            m["vol"][a] = dict(flat_surface(rng, date, rng.randint(1, len(cals)), 0), tag=a)
        m["lacks"] = n % 4 == 3       # something is missing
        if m["lacks"]:
            which = rng.choice(["spot", "borrow", "div", "vol", "rate"])
            m[which].pop(rng.choice(["GSK", "VOD"]) if which != "rate" else "LSE")
        elif n % 8 == 5:              # an equity that is worth nothing
            m["spot"]["VOD"] = 0
            m["div"]["VOD"]["divs"] = []
            m["vol"]["VOD"] = dict(flat_surface(rng, date, rng.randint(1, len(cals)), 0), tag="VOD")
        elif n % 8 == 2:              # worth next to nothing: cents are the smallest coin here, and weights make it smaller
            m["spot"]["VOD"] = rng.choice([1, 2, 7])
            m["div"]["VOD"]["divs"] = []
            m["vol"]["VOD"] = dict(flat_surface(rng, date, rng.randint(1, len(cals)), 0), tag="VOD")
        L = []
        add = lambda **k: (L.append(k), len(L))[1]
        add(kind="ccy", id="GBP", credit="GBP", lag=2)
        add(kind="credit", id="OPT", credit="OPT", lag=1)
        eq = [add(kind="equity", id=a, credit=k, lag=rng.choice([0, 2, 3])) for a, k in (("BP", "LSE"), ("GSK", "LSE"), ("VOD", "OPT"))]
        for e in eq:                  # equities of the user's own
            a = L[e - 1]["id"]
            how = rng.choice(["", "", "roll", "delta"])
            if how and a in m["vol"] and not m["lacks"]:
                L[e - 1]["dyn"] = how
                m["vol"][a]["base"] = min(m["vol"][a]["base"], date)
        zs = []
        for k in range(3):
            ed = date + rng.choice([-3, 0, 1, 90])
            zs.append(add(kind="zero", id="Z%d" % k, credit=rng.choice(["OPT", "LSE"]), lag=rng.choice([0, 2]), ed=ed, et=rng.choice([0, 1, 2]), pay=ed + rng.choice([0, 2, 30])))
        bsk = add(kind="basket", id="BSK", credit="LSE", lag=2, ws=[rng.randint(10, 150), rng.randint(10, 150)], ms=rng.sample(eq, 2))
        # a basket of a basket, long one and short the other; and a thousandth of an equity, named like a credit
        bs2 = add(kind="basket", id="BS2", credit="OPT", lag=1, ws=[rng.randint(20, 90), rng.choice([-1, 1]) * rng.randint(5, 60)], ms=[bsk, rng.choice(eq)])
        pen = add(kind="basket", id=rng.choice(["PEN", "LSE"]), credit="OPT", lag=1, ws=[1], ms=[eq[2]])
        expiries, singles = set(), []
        for k in range(7):
            u = rng.choice(eq + [bsk, bs2, pen])
            spot = m["spot"].get(L[u - 1]["id"], 20000) if u != pen else (m["spot"].get("VOD", 10000) + 99) // 100
            ed, et = date + rng.choice([0, 1, 3, 30, 100, 250, 500, -2]), rng.choice([0, 1, 2])
            expiries.add(ed)
            common = dict(credit=rng.choice(["OPT", "LSE", L[u - 1]["credit"]]), lag=rng.choice([0, 2, 5]), u=u, ed=ed, et=et, phys=rng.random() < 0.5)
            if k < 4:
                common.update(kind="spot", k=rng.choice([spot, spot * 9 // 10, spot * 12 // 10, rng.randint(spot // 2, 2 * spot), 0, 400]))
            else:
                sd = max(date, ed - rng.choice([0, 1, 30, 90])) if rng.random() < 0.9 else date - 1
                common.update(kind="fwd", frac=rng.choice([10000, 9500, 12000]), sd=sd, st=rng.choice([0, 1, et]) if sd == ed else rng.choice([0, 1, 2]))
                if sd == ed:
                    common["st"] = min(common["st"], et)
                expiries.add(sd)
            put = add(id="P%d" % k, put=True, twin=0, **common)
            call = add(id="C%d" % k, put=False, twin=put, **common)
            singles += [put, call]
        add(kind="basket", id="B2", credit="LSE", lag=2, ws=[rng.randint(-200, 200) for _ in range(4)], ms=[rng.choice(singles), rng.choice(eq), bsk, 1])
        add(kind="basket", id="B3", credit="LSE", lag=2, ws=[rng.randint(-200, 200) for _ in range(4)], ms=[zs[2], rng.choice(singles), rng.choice(zs), 1])
        ds = {(date, 0), (date, 1), (date, 2), (date + 1, 0), (date + 7, 2)}
        for e in expiries:
            ds |= {(e, t) for t in (0, 1, 2)} | {(e + 1, 0), (e - 1, 2)}
        ds = sorted(d for d in ds if d[0] >= date)
        ds = [(date, 0), (date, 2)] + sorted(rng.sample([d for d in ds if d not in ((date, 0), (date, 2))], min(9, len(ds) - 2)))
        m["insts"], m["dates"] = L, [dict(d=d, t=t) for d, t in sorted(ds)]
        ms.append(m)
    json.dump(dict(cals=cals, markets=ms), open(path, "w"))


def risk_market(rng, cals, date, n_opts=3):
    """A market, a portfolio on part of it, and bumps of all of it and of things it lacks."""
    m = some_market(rng, cals, date, basket=None)
    for a in m["vol"].values():
        if a["assume"] == "JumpDivs":
            a["assume"] = "FixedDivs"
        a["base"] = min(a["base"], date)
    L = []
    add = lambda **k: (L.append(k), len(L))[1]
    eq = [add(kind="equity", id=a, credit=k, lag=rng.choice([0, 2, 3])) for a, k in (("BP", "LSE"), ("GSK", "LSE"), ("VOD", "OPT"))]
    zero = add(kind="zero", id="Z", credit="GBP", lag=2, ed=date + 300, et=0, pay=date + 310)
    port = []
    for k in range(n_opts):
        u = eq[k % 2]
        spot = m["spot"][L[u - 1]["id"]]
        ed = date + rng.choice([60, 100, 250])
        q = dict(id="O%d" % k, credit=rng.choice(["OPT", "LSE"]), lag=rng.choice([0, 2]), u=u, ed=ed, et=rng.choice([0, 2]), phys=False, put=rng.random() < 0.5, twin=0)
        if k == 1:
            q.update(kind="fwd", frac=rng.choice([10000, 9500]), sd=date + 40, st=2)
        else:
            q.update(kind="spot", k=spot * rng.choice([95, 100, 110]) // 100)
        port.append(dict(n=add(**q), x=rng.choice([100, -250, 70])))
    bsk = add(kind="basket", id="BSK", credit="LSE", lag=2, ws=[rng.randint(10, 150), rng.randint(10, 150)], ms=[eq[0], zero])
    port += [dict(n=bsk, x=150), dict(n=eq[1], x=-100)]
    if rng.random() < 0.7 or n_opts == 0:
        port.append(dict(n=add(kind="watch", id="W", credit="OPT", lag=2, u=rng.choice([eq[2], eq[2], eq[0]]), ed=date + 90), x=40))
    for e in eq[:2]:
        dyn = rng.choice(["roll", "delta", "strike"])
        if dyn != "strike":
            L[e - 1]["dyn"] = dyn
    B = []
    for a in ("BP", "GSK"):
        B += [dict(k="spot", id=a, o="rel", n=rng.choice([100, -50]), m=0), dict(k="vol", id=a, o="par", n=rng.choice([100, -70]), m=0),
              dict(k="div", id=a, o="rel", n=rng.choice([100, -300]), m=0), dict(k="borrow", id=a, o=rng.choice(["ann", "cc"]), n=15, m=0)]
    B += [dict(k="rate", id="LSE", o="ann", n=20, m=0), dict(k="rate", id="OPT", o="cc", n=-10, m=0), dict(k="rate", id="GBP", o="cc", n=25, m=0),
          dict(k="spot", id="VOD", o="repl", n=9900, m=0), dict(k="vol", id="VOD", o="rep", n=2000, m=0),
          dict(k="div", id="VOD", o="rel", n=-400, m=0), dict(k="borrow", id="VOD", o="cc", n=35, m=0),
          dict(k="vol", id="BP", o="ts", n=100, m=8), dict(k="vol", id="GSK", o="rep", n=2700, m=0), dict(k="spot", id="BP", o="repl", n=11000, m=0),
          dict(k="spot", id="NIL", o="rel", n=100, m=0), dict(k=rng.choice(["vol", "div", "rate", "borrow"]), id="NIL", o="rel", n=100, m=0)]
    B[-1]["o"] = dict(vol="par", div="rel", rate="cc", borrow="cc")[B[-1]["k"]]
    m.update(insts=L, port=port, bumps=B, probes=[date + 20, date + 75], strikes=[m["spot"]["BP"]],
             moves=[dict(n=1, o="forward"), dict(n=5, o="spot"), dict(n=0, o="forward"), dict(n=11, o="forward")])
    return m


def risk_world(c, path, n_markets, salt=19, n_bumps=None):
    rng = random.Random(c.seed * 122949823 + salt)
    cals = vol_calendars()
    # some of them ask for forwards and no vols
    ms = [risk_market(rng, cals, serial(2018, 6, 1) + rng.choice([0, 3, 40]), n_opts=0 if k and (k == n_markets - 1 or k % 6 == 5) else 3) for k in range(n_markets)]
    if n_bumps:
        for m in ms:
            m["bumps"] = rng.sample(m["bumps"], n_bumps)
            m["moves"] = rng.sample(m["moves"], 1)
    for m in ms:
        collide(rng, m)
    json.dump(dict(cals=cals, markets=ms), open(path, "w"))


def undo_world(c, path, n_markets, salt=0):
    """Markets with few bumps, several of the same thing, for every history of them."""
    rng = random.Random(c.seed * 122949823 + salt)
    cals = vol_calendars()
    ms = []
    for k in range(n_markets):
        m = risk_market(rng, cals, serial(2018, 6, 1) + rng.choice([0, 3, 40]), n_opts=rng.choice([1, 2, 3]))
        kind = ["vol", "spot", "rate", "div", "borrow"][k % 5]
        twice = [b for b in m["bumps"] if b["k"] == kind and b["id"] in ("BP", "LSE")][0]
        again = dict(twice, n=twice["n"] + 7)
        others = [b for b in m["bumps"] if b["k"] != kind and b["id"] != "NIL"]
        m["bumps"] = [twice, again] + rng.sample(others, 1)
        m["moves"] = rng.sample(m["moves"], 1)
        m["probes"], m["strikes"] = m["probes"][:1], m["strikes"][:1]
        ms.append(collide(rng, m))
    json.dump(dict(cals=cals, markets=ms), open(path, "w"))


def life_case(rng, date):
    """Holdings of options, baskets of them and options on those, and the fixings they await."""
    L = []
    add = lambda **k: (L.append(k), len(L))[1]
    credit = lambda: rng.choice(["OPT", "LSE", "GBP"])
    day = lambda: date + rng.choice([0, 0, 1, 3, 4, 7])
    lag = lambda: rng.choice([0, 1, 2, 3])
    eq = [add(kind="equity", id=a, credit="LSE", lag=lag()) for a in ("BP", "GSK")]
    zero = add(kind="zero", id="Z", credit="GBP", lag=2, ed=date + 5, et=0, pay=date + 6)
    spots = {}

    def option(u):
        n = len(L)
        q = dict(id="O%d" % n, credit=credit(), lag=lag(), u=u, ed=day(), et=rng.randrange(3), put=rng.random() < 0.5, phys=rng.random() < 0.5)
        if rng.random() < 0.4:
            q.update(kind="fwd", frac=rng.choice([10000, 9500, 10250]), sd=min(q["ed"], day()), st=rng.randrange(3))
            if q["sd"] == q["ed"]:
                q["st"] = min(q["st"], q["et"])
        else:
            q.update(kind="spot", k=rng.choice([9000, 10000, 10000, 10001, 9999, 0, 12000]))
        return add(**q)

    def basket(ms):
        return add(kind="basket", id="B%d" % len(L), credit=credit(), lag=lag(), ws=[rng.randint(-150, 150) for _ in ms], ms=ms)
    opts = [option(rng.choice(eq)) for _ in range(rng.randint(1, 4))]
    some = lambda k: [rng.choice(eq + opts + [zero]) for _ in range(k)]
    bs = [basket(some(rng.randint(0, 3)))]
    bs.append(basket(some(1) + bs + some(rng.randint(0, 1))))
    opts.append(option(rng.choice(bs)))
    if rng.random() < 0.5:
        bs.append(basket([opts[-1]] + some(1)))
        opts.append(option(bs[-1]))
    held = opts + bs + [rng.choice(eq), zero]
    book = [dict(n=rng.choice(held), x=rng.choice([100, -100, 250, 30])) for _ in range(rng.randint(1, 4))]
    fixes = []
    for q in L:
        for d, t in (("ed", "et"), ("sd", "st")):
            if q["kind"] in ("spot", "fwd") and d in q and rng.random() < 0.93:
                u = L[q["u"] - 1]["id"]
                f = dict(id=u, d=q[d], t=q[t], v=rng.choice([9000, 9999, 10000, 10000, 10001, 11000]))
                if not any(all(f[k] == x[k] for k in ("id", "d", "t")) for x in fixes):
                    fixes.append(f)
    for _ in range(3):      # and some nobody asks for
        f = dict(id=rng.choice(["BP", "GSK", "O3", "NIL"]), d=day() - rng.choice([0, 1]), t=rng.randrange(3), v=rng.randint(9000, 11000))
        if not any(all(f[k] == x[k] for k in ("id", "d", "t")) for x in fixes):
            fixes.append(f)
    stages = sorted({(date + rng.choice([-1, 0, 1, 2, 3, 4, 5, 7, 8]), rng.choice([-1, 0, 1, 2])) for _ in range(5)})
    return dict(insts=L, book=book, fixes=fixes, stages=[dict(u=u, t=t) for u, t in stages])


def life_world(c, path, n, salt=37):
    rng = random.Random(c.seed * 86028121 + salt)
    json.dump(dict(cases=[life_case(rng, serial(2018, 6, 1) + rng.choice([0, 3, 200])) for _ in range(n)]), open(path, "w"))


def deps_world(c, path, n, salt=41):
    """Instruments of every kind, nested, with complete markets and fixings, some nobody asked for."""
    rng = random.Random(c.seed * 15485863 + salt)
    cals = vol_calendars()
    ms = []
    for _ in range(n):
        date = serial(2018, 6, 1) + rng.choice([0, 3, 40])
        m = some_market(rng, cals, date)
        L = []
        add = lambda **k: (L.append(k), len(L))[1]
        lag = lambda: rng.choice([0, 2, 5])
        add(kind="ccy", id="GBP", credit="GBP", lag=2, plain=True)
        eq = [add(kind="equity", id=a, credit=k, lag=lag(), plain=True) for a, k in (("BP", "LSE"), ("GSK", "LSE"), ("VOD", "OPT"))]
        z = add(kind="zero", id="Z", credit=rng.choice(["OPT", "XX"]), lag=lag(), ed=date + 30, et=1, pay=date + rng.choice([30, 33]), plain=True)
        opts, fixes = [], []

        def option(u, same):
            d = date + rng.choice([0, 1, 30, 100, 300])
            q = dict(id="O%d" % len(L), credit=L[u - 1]["credit"] if same else rng.choice(["OPT", "LSE", "XX"]), lag=lag(), u=u, ed=d, et=rng.randrange(3),
                     put=rng.random() < 0.5, phys=rng.random() < 0.5, plain=same)
            if rng.random() < 0.5:
                q.update(kind="fwd", frac=rng.choice([10000, 9500]), sd=max(date, d - rng.choice([0, 1, 20])), st=0)
                fixes.append(dict(id=L[u - 1]["id"], d=q["sd"], t=0, v=10000))
            else:
                q.update(kind="spot", k=rng.choice([9000, 10000, 12000]))
            fixes.append(dict(id=L[u - 1]["id"], d=d, t=q["et"], v=rng.choice([9500, 10500])))
            return add(**q)
        for k in range(5):
            opts.append(option(rng.choice(eq), True))
        for k in range(2):
            option(rng.choice(eq), False)
        b = add(kind="basket", id="BSK", credit="LSE", lag=2, ws=[40, 70], ms=rng.sample(eq, 2), plain=True)
        add(kind="basket", id="B2", credit="XX", lag=2, ws=[40, -70, 100, 5], ms=[rng.choice(opts), b, rng.choice(opts), z], plain=True)
        option(b, False)
        L[-1]["plain"] = False
        for _ in range(3):
            fixes.append(dict(id=rng.choice(["BP", "GSK", "BSK", "O5"]), d=date + rng.choice([0, 1, 30]), t=rng.randrange(3), v=9900))
        seen, uniq = set(), []
        for f in fixes:
            k = (f["id"], f["d"], f["t"])
            if k not in seen:
                seen.add(k)
                uniq.append(f)
        m.update(insts=L, fixes=uniq)
        ms.append(collide(rng, m))
    json.dump(dict(cals=cals, markets=ms), open(path, "w"))


def report_market(rng, cals, date, n_moves, n_gens):
    """A market and a portfolio whose options fix over the next days, with reports to make of it."""
    m = some_market(rng, cals, date, basket=None)
    for a in m["vol"].values():
        if a["assume"] == "JumpDivs":
            a["assume"] = "FixedDivs"
        a["base"] = min(a["base"], date)
    L = []
    add = lambda **k: (L.append(k), len(L))[1]
    eq = [add(kind="equity", id=a, credit=k, lag=rng.choice([0, 2, 3])) for a, k in (("BP", "LSE"), ("GSK", "LSE"), ("VOD", "OPT"))]
    zero = add(kind="zero", id="Z", credit="GBP", lag=2, ed=date + rng.choice([1, 300]), et=0, pay=date + 310)
    port, inner = [], []
    for k in range(rng.choice([1, 2, 3, 4])):
        u = rng.choice(eq[:2])
        spot = m["spot"][L[u - 1]["id"]]
        ed = date + rng.choice([0, 1, 2, 3, 5, 6, 60, 250])
        q = dict(id="O%d" % k, credit=rng.choice(["OPT", "LSE"]), lag=rng.choice([0, 2]), u=u, ed=ed, et=rng.choice([0, 1, 2]), phys=rng.random() < 0.5, put=rng.random() < 0.5, twin=0)
        if rng.random() < 0.5:
            sd = min(ed, date + rng.choice([0, 1, 2, 4, 40]))
            q.update(kind="fwd", frac=rng.choice([10500, 9500]), sd=sd, st=rng.choice([0, q["et"]]))
        else:
            q.update(kind="spot", k=spot * rng.choice([95, 103, 110]) // 100)
        n = add(**q)
        (inner if rng.random() < 0.3 else port).append(dict(n=n, x=rng.choice([100, -250, 70])))
    bsk = add(kind="basket", id="BSK", credit="LSE", lag=2, ws=[rng.randint(10, 150), rng.randint(-150, 150)] + [p["x"] for p in inner], ms=[eq[0], zero] + [p["n"] for p in inner])
    if inner or rng.random() < 0.5:
        port.append(dict(n=bsk, x=150))
    if rng.random() < 0.5:
        port.append(dict(n=eq[rng.choice([1, 2])], x=-100))
    if not port:
        port.append(dict(n=bsk, x=-70))
    rng.shuffle(port)
    for e in eq[:2]:
        dyn = rng.choice(["strike", "strike", "delta", "roll"])
        if dyn == "delta" or (dyn == "roll" and cals[m["vol"][L[e - 1]["id"]]["cal"] - 1]["kind"] != "vol"):
            L[e - 1]["dyn"] = dyn
    B = [dict(k="spot", id="BP", o="rel", n=300, m=0), dict(k="vol", id="BP", o="par", n=150, m=0), dict(k="rate", id="LSE", o="cc", n=30, m=0),
         dict(k="div", id="GSK", o="rel", n=-200, m=0), dict(k="vol", id="GSK", o="ts", n=-40, m=8), dict(k="spot", id="GSK", o="rel", n=-200, m=0)]
    greeks = [dict(k="delta", n=rng.choice([1, 10, 50])), dict(k="delta", n=rng.choice([100, 500])),
              dict(k="vega", o="par", n=rng.choice([5, 100]), m=0), dict(k="vega", o="ts", n=rng.choice([10, 70]), m=rng.choice([1, 8, 25]))]
    moves = [dict(n=n, o=o) for n in (0, 1, 2, 3, 4, 6, 11) for o in ("forward", "spot")]
    gens = greeks + [dict(k="time", subs=[], **rng.choice(moves[2:])), dict(k="time", subs=rng.sample(greeks, rng.choice([1, 2, 3])), **rng.choice(moves[2:])),
                     dict(k="time", subs=[rng.choice(greeks), dict(k="time", subs=[rng.choice(greeks)], **rng.choice(moves[2:]))], **rng.choice(moves[2:]))]
    m.update(insts=L, port=port, bumps=rng.sample(B, 2), moves=rng.sample(moves, n_moves), gens=rng.sample(gens, n_gens))
    return m


def report_world(c, path, n_markets, n_moves=2, n_gens=5, salt=0):
    rng = random.Random(c.seed * 141650939 + 41 + salt)
    cals = vol_calendars()
    ms = [collide(rng, report_market(rng, cals, serial(2018, 6, 1) + rng.choice([0, 3, 40]), n_moves, n_gens)) for _ in range(n_markets)]
    json.dump(dict(cals=cals, markets=ms), open(path, "w"))


def implied_world(c, path, n_markets, n_tasks=4, salt=0):
    """Markets with portfolios, mostly of one surface, and prices to find volatilities for."""
    rng = random.Random(c.seed * 141650981 + 53 + salt)
    cals = vol_calendars()
    ms = []
    for k in range(n_markets):
        m = report_market(rng, cals, serial(2018, 6, 1) + rng.choice([0, 3, 40]), 2, 1)
        opts = [q for q in m["insts"] if q["kind"] in ("spot", "fwd")]
        if rng.random() < 0.8:
            for q in opts:
                q["u"] = opts[0]["u"]
        tasks = []
        for _ in range(n_tasks):
            lo, hi = rng.choice([0, 1, 500, 1500]), rng.choice([2500, 6000, 20000])
            tasks.append(dict(lo=lo, hi=hi, n=rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(lo, hi), hi + 700]),
                              off=rng.choice([0, 0, 0, 0, 1, -300, 40000]), tol=rng.choice([3, 5, 8, 12]), iter=rng.choice([1, 3, 6, 3000, 3000, 3000, 3000])))
        m.update(tasks=tasks)
        ms.append(collide(rng, m))
    json.dump(dict(cals=cals, markets=ms), open(path, "w"))


def mc_market(rng, cals, date, n_bumps, n_walks):
    """A market with one option to price by Monte-Carlo, and observation schedules to walk along."""
    m = risk_market(rng, cals, date, n_opts=0)
    L = m["insts"]
    u = rng.choice([1, 2])
    a = L[u - 1]["id"]
    spot = m["spot"][a]
    ed = date + rng.choice([0, 1, 3, 30, 100, 250])
    q = dict(id="O", credit=rng.choice(["OPT", "LSE"]), lag=rng.choice([0, 2]), u=u, ed=ed, et=rng.choice([0, 1, 2]), phys=rng.random() < 0.5, put=rng.random() < 0.5, twin=0)
    if rng.random() < 0.6:
        sd = min(ed, date + rng.choice([0, 1, 2, 20]))
        q.update(kind="fwd", frac=rng.choice([10000, 9500]), sd=sd, st=rng.choice([0, q["et"]]) if sd == ed else rng.choice([0, 1, 2]))
    else:
        q.update(kind="spot", k=spot * rng.choice([95, 100, 110]) // 100)
    L.append(q)
    other = "GSK" if a == "BP" else "BP"
    B = [b for b in m["bumps"] if b["id"] in (a, "LSE", q["credit"])]
    B += [dict(k="vol", id=a, o="par", n=rng.choice([150, -90]), m=0), dict(k="vol", id=a, o="ts", n=80, m=rng.choice([1, 30]))]
    rest = [b for b in m["bumps"] if b not in B]
    bumps = rng.sample(B, n_bumps - 1) + rng.sample(rest, 1)
    moves = [dict(n=n, o=o) for n in (0, 1, 2, 5, 11) for o in ("forward", "spot")]
    walks = []
    for k in range(n_walks):
        obs = sorted({(date + rng.choice([0, 1, 7, 30, 90, 91, 250, 600]), rng.choice([0, 2])) for _ in range(rng.choice([1, 1, 2, 3, 4]))})
        if rng.random() < 0.1:
            obs = obs[::-1]        # time does not go backwards
        walks.append(dict(ns=rng.choice([[1], [2], [u], [3]]), obs=[list(o) for o in obs], steps=[rng.choice([1, 1, 2, 3]) for _ in obs]))
    for k in walks:
        if rng.random() < 0.3:
            k["ns"] = rng.sample([1, 2, 3], rng.choice([2, 3]))
    m.update(opt=len(L), x=rng.choice([100, 100, -250, 70]), sub=rng.choice([10, 40, 100, 200, 10000]), bumps=bumps, walks=walks,
             moves=rng.sample(moves, 2), advances=rng.sample(moves[2:], 2) + [dict(n=ed - date, o="spot")])
    for k in ("port", "probes", "strikes"):
        m.pop(k)
    return m


def mc_world(c, path, n_markets, n_bumps=4, n_walks=2, salt=0):
    rng = random.Random(c.seed * 141650963 + 43 + salt)
    cals = vol_calendars()
    ms = [collide(rng, mc_market(rng, cals, serial(2018, 6, 1) + rng.choice([0, 3, 40]), n_bumps, n_walks)) for _ in range(n_markets)]
    # a path is predicted, so where its vols come from must not be a matter of rounding: steps of half a day round either way
    for m in ms:
        for q in m["insts"]:
            if q.get("dyn") == "roll" and cals[m["vol"][q["id"]]["cal"] - 1]["kind"] == "vol":
                del q["dyn"]
    json.dump(dict(cals=cals, markets=ms), open(path, "w"))


def dedup_world(c, path, n_worlds, salt=0, n_scopes=6, n_docs=2):
    """Objects that share others, scopes to write and read them in, and some documents."""
    rng = random.Random(c.seed * 160481183 + 47 + salt)
    ws = []
    for _ in range(n_worlds):
        objs = [dict(k="ccy", id=a, kids=[], t="ccy") for a in ("GBP", "USD")]
        ins = []
        for k in range(rng.choice([2, 3, 4])):
            objs.append(dict(k="ins", id="E%d" % k, kids=[rng.choice([1, 1, 2])], t="equity"))
            ins.append(len(objs))
        for k in range(rng.choice([1, 2, 3])):
            if rng.random() < 0.4:
                objs.append(dict(k="ins", id="O%d" % k, kids=[rng.choice([x for x in ins if objs[x - 1]["t"] in ("equity", "basket")])], t=rng.choice(["spot", "fwd"])))
            else:
                objs.append(dict(k="ins", id="B%d" % k, kids=[rng.choice([1, 2])] + [rng.choice(ins) for _ in range(rng.choice([1, 2, 3]))], t="basket"))
            ins.append(len(objs))
        of = dict(ccy=[1, 2], ins=ins)
        # sometimes two of a name
        if rng.random() < 0.3:
            objs.append(dict(k="ccy", id="GBP", kids=[], t="ccy"))
        scopes = []
        for k in range(n_scopes):
            kind = ("ccy", "ins")[k % 2]
            scopes.append(dict(k=kind, mode=rng.choice(["inline", "missing", "once", "once"]), has=rng.sample(of[kind], rng.choice([0, 0, 1, len(of[kind])]))))

        def tree(i):
            o = objs[i - 1]
            full = rng.random() < (0.7 if o["kids"] else 0.5)
            return dict(k=o["k"], id=o["id"], full=full, c=i if full else 0, kids=[tree(a) for a in o["kids"]] if full else [])
        docs = [tree(rng.choice(of["ins"] + [1])) for _ in range(n_docs)]
        ws.append(dict(objs=objs, scopes=scopes, docs=docs))
    json.dump(dict(worlds=ws), open(path, "w"))


def compare_world(c, path, n_sets, n_tols, salt=0):
    """Sets of results to compare, and tolerances to compare them with."""
    rng = random.Random(c.seed * 15485863 + 91 + salt)
    ids = ["BP.L", "GSK.L", "VOD.L"]
    bumps = [[1, 100], [1, 10], [-1, 50]]

    def report(depth):
        kind = rng.choice(["dg", "vv", "tb"] if depth else ["dg", "vv"])
        if kind == "tb":
            return dict(kind="tb", nums=[0, 0], subs=[report(depth - 1) for _ in range(rng.choice([0, 1, 2]))])
        return dict(kind=kind, bump=rng.choice([1, 1, 2, 3]), rows={x: [0, 0] for x in rng.sample(ids, rng.choice([1, 2]))})
    tb = dict(kind="tb", nums=[0, 0], subs=[dict(kind="dg", bump=1, rows={"BP.L": [0, 0]})])
    sets = [[dict(kind="dg", bump=1, rows={"BP.L": [0, 0], "GSK.L": [0, 0]}), dict(kind="vv", bump=3, rows={"BP.L": [0, 0]})], [tb]]
    sets += [[report(2) for _ in range(rng.choice([1, 2]))] for _ in range(n_sets)]
    some = [[1, 1000], [1, 2], [3, 100000], [0, 1], [20, 1]]
    tols = [dict(price=[0, 1], ccy=[0, 1], unit=[0, 1])]
    tols += [dict(price=rng.choice(some), ccy=rng.choice(some), unit=rng.choice(some)) for _ in range(n_tols)]
    json.dump(dict(sets=sets, tols=tols, bumps=bumps, steps=[0, 3, -3, 5, -5, 8]), open(path, "w"))


def handles_world(c, path, n_starts, salt=0):
    """Texts to be read through the C interface, and handles to begin with."""
    rng = random.Random(c.seed * 32452843 + 5 + salt)
    texts = []

    def text(name, kind, ok=True, id="", wants=(), needs=(), has=(), mc=False, works=True, odd=False):
        texts.append(dict(name=name, kind=kind, ok=ok, id=id, wants=list(wants), needs=list(needs), has=list(has), mc=mc, works=works, odd=odd))
    text("gbp", "currency", id="GBP")
    text("usd", "currency", id="USD")
    text("equity", "instrument", id="BP.L", needs=["spot"], odd=True)
    text("equity-name", "instrument", id="BP.L", wants=["GBP"], needs=["spot"])
    text("option", "instrument", id="O1", needs=["spot", "vol"], mc=True)
    text("option-name", "instrument", id="O2", wants=["BP.L"], needs=["spot", "vol"], mc=True)
    text("option-both", "instrument", id="O3", wants=["GBP"], needs=["spot", "vol"], mc=True)
    text("started", "instrument", id="O4", needs=["spot", "vol", "fix"], mc=True)
    text("basket", "instrument", id="B1", wants=["GBP", "BP.L"], needs=["spot"])
    text("full", "market", has=["spot", "vol"], odd=True)
    text("novol", "market", has=["spot"])
    text("nospot", "market", has=["vol"])
    text("allfix", "fixings", has=["fix"])
    text("nofix", "fixings")
    text("self", "factory")
    text("mc", "factory", mc=True)
    text("mc-none", "factory", mc=True, works=False)
    text("dg", "generator")
    text("vv", "generator")
    text("tb", "generator")
    text("results", "reports", odd=True)
    text("nul", "instrument", ok=False)
    for k in ("currency", "instrument", "market", "fixings", "factory", "generator", "reports"):
        for bad in ("cut", "tag", "trail"):
            text(bad, k, ok=False)
    for bad in ("", "{", "[]x", "null", "17", "bytes", "deep"):
        text(bad, "none", ok=False, odd=True)
    at = {t["name"]: k + 1 for k, t in enumerate(texts) if t["ok"]}
    starts = [["gbp", "equity", "option", "full", "allfix", "self", "dg"], ["started", "full", "allfix", "mc", "vv", "results"],
              ["usd", "option", "full", "nofix", "mc-none", "tb", "results"]]
    for _ in range(n_starts):
        starts.append([rng.choice([t["name"] for t in texts if t["kind"] == k and t["ok"] and not t["wants"]])
                       for k in ("currency", "instrument", "instrument", "market", "fixings", "factory", "generator", "reports") if rng.random() < 0.9])
    starts = [[at[x] for x in s] for s in starts]
    for s in starts:
        if rng.random() < 0.5:
            s.insert(rng.randrange(len(s)), rng.choice([k + 1 for k, t in enumerate(texts) if not t["ok"] and t["kind"] not in ("none", "instrument")]))
    json.dump(dict(texts=texts, starts=starts), open(path, "w"))
