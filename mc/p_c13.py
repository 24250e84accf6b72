"""C13: bounded indicators stay in range, bands stay ordered, averages stay within the prices they cover."""
from .env import np
from .specs import SPECS
from .tables import build, label, tab
from . import worlds as W

RULE = "every published cell lies between the lower and upper bound that its definition implies (one rounding step allowed); bands and levels are ordered row by row"
BOUNDS = {
    "quick": "all sequences of <= 3 bars over 6 (incl. 50-fold jumps, crashes, flat, zero volume) for every small parameter set, <= 2 bars after 3 base histories for fixed-window indicators; "
             "all rows of 8 series for all parameter sets; every period 1..24 on one extreme series",
    "thorough": "all sequences of <= 4 bars over 8 and <= 5 over 4 for small parameter sets, <= 4 bars after 5 base histories; all 16 series; every period 1..60 on four series",
}
CRASH = (10.0, 10.25, 0.25, 0.5, 1)
ALPHA = [W.UP, W.DOWN, W.FLAT, W.HUGE, CRASH, W.ZERO, W.TOP, W.LOW]
LONGS = ["spikes", "geo", "regimes", "ordinary", "bars4", "trends", "walk6", "tenths", "divergence", "bars5"]
MORE = ["walk2", "sevens", "threes", "fours", "ranges", "bulges"]
INF = float("inf")


def pct(lo, hi, *cols):
    return lambda sp, p, d, t: [(c, [lo] * len(t[c]), [hi] * len(t[c]), 0.0) for c in cols]


def win(f, xs, n, i):
    return f(xs[max(0, i - n + 1): i + 1])


def cover(lo_col, hi_col, cols, span=None):
    """Cells within min(lo_col)..max(hi_col) of the last span(p) bars (None: the history up to the row)."""
    def g(sp, p, d, t):
        out = []
        for c in cols:
            m = len(t[c])
            n = span(p) if span else 10 ** 9
            lo, hi = [], []
            rl, rh = INF, -INF
            for i in range(m):
                if span is None:
                    rl, rh = min(rl, d[lo_col][i]), max(rh, d[hi_col][i])
                    lo.append(rl)
                    hi.append(rh)
                else:
                    lo.append(win(min, d[lo_col], n, i))
                    hi.append(win(max, d[hi_col], n, i))
            out.append((c, lo, hi, sp.eps))
        return out
    return g


def order(*cols):
    """cols ascending, each pair up to rounding."""
    return lambda sp, p, d, t: [(a, [-INF] * len(t[a]), t[b], sp.eps) for a, b in zip(cols, cols[1:])]


def both(*fs):
    return lambda sp, p, d, t: [x for f in fs for x in f(sp, p, d, t)]


def _ma(sp, p, d, t):
    n, k = p["period"], p["ma_type"]
    c = "ma-" + k
    if k == "time_series":
        return []
    span = {"simple": n, "triangular": 2 * n - 1}.get(k)
    return cover("c", "c", [c], (lambda q: span) if span else None)(sp, p, d, t)


def _boll(sp, p, d, t):
    x = order("lower_band", "middle_band", "upper_band")(sp, p, d, t)
    return x + cover("c", "c", ["middle_band"], lambda q: q["period"])(sp, p, d, t)


def _fib(sp, p, d, t):
    names = ["rl_0.0", "rl_23.6", "rl_38.2", "rl_50.0", "rl_61.8", "rl_100.0"]
    m = len(t["rl_0.0"])
    hi, lo = max(d["c"]), min(d["c"])
    x = order(*reversed(names))(sp, p, d, t)
    return x + [(n, [lo] * m, [hi] * m, sp.eps) for n in names] + [("rl_0.0", [hi] * m, [hi] * m, sp.eps), ("rl_100.0", [lo] * m, [lo] * m, sp.eps)]


def _ichi(sp, p, d, t):
    out = []
    for c, n, s in (("tenkan_sen", 9, 0), ("kijun_sen", 26, 0), ("senkou_a", 26, 26), ("senkou_b", 52, 26)):
        m = len(t[c])
        lo = [win(min, d["l"], n, i - s) if i >= s else -INF for i in range(m)]
        hi = [win(max, d["h"], n, i - s) if i >= s else INF for i in range(m)]
        out.append((c, lo, hi, sp.eps))
    return out


def _pb(sp, p, d, t):
    m = len(t["upper_band"])
    return order("lower_band", "upper_band")(sp, p, d, t) + [
        ("upper_band", d["h"][:m], [INF] * m, sp.eps), ("lower_band", [-INF] * m, d["l"][:m], sp.eps)]


def _posc(sp, p, d, t):
    # published with 2 decimals from bands rounded to 4: the error of a narrow band is bounded by its width
    b = SPECS["ProjectionBands"].ref(d, p)
    m = len(t["posc"])
    n = p["period"]
    out = []
    for c in ("posc", "trigger_line"):
        lo, hi = [], []
        for i in range(m):
            ws = [b["upper_band"][k] - b["lower_band"][k] for k in range(max(0, i - (2 if c == "trigger_line" else 0)), i + 1)]
            ws = [w for w in ws if w == w]
            w = min(ws) if ws else 0.0
            e = 0.0 if not ws else INF if w < 1e-3 else 100 * 2.1e-4 / w + 0.011
            if c == "trigger_line" and i > n and any(x < 1e-3 for x in [b["upper_band"][k] - b["lower_band"][k] for k in range(i + 1) if b["upper_band"][k] == b["upper_band"][k]]):
                e = INF
            lo.append(-e)
            hi.append(100 + e)
        out.append((c, lo, hi, 0.0))
    return out


NONNEG = lambda *cols: (lambda sp, p, d, t: [(c, [0.0] * len(t[c]), [INF] * len(t[c]), 0.0) for c in cols])
RANGES = {
    "RelativeStrengthIndex": pct(0, 100, "rsi"), "RelativeMomentumIndex": pct(0, 100, "rmi"), "StochasticOscillator": pct(0, 100, "%K", "%D"),
    "ProjectionOscillator": _posc, "RangeIndicator": pct(0, 100, "ri"), "UltimateOscillator": pct(0, 100, "uosc"),
    "DirectionalMovementIndex": pct(0, 100, "+di", "-di", "dx", "adx", "adxr"), "IntradayMomentumIndex": pct(0, 100, "imi"),
    "RelativeVolatilityIndex": pct(0, 100, "rvi"), "WilliamsR": pct(-100, 0, "wr"), "ChandeMomentumOscillator": pct(-100, 100, "cmo"),
    "SwingIndex": pct(-100, 100, "swi"), "StochasticMomentumIndex": pct(-100, 100, "smi"), "ChaikinMoneyFlow": pct(-1, 1, "cmf"),
    "AverageTrueRange": both(NONNEG("atr"), lambda sp, p, d, t: [("atr", [0.0] * len(t["atr"]), [max(d["h"]) - min(d["l"])] * len(t["atr"]), sp.eps)]),
    "StandardDeviation": both(NONNEG("sd"), lambda sp, p, d, t: [
        ("sd", [0.0] * len(t["sd"]), [(win(max, d["c"], p["period"], i) - win(min, d["c"], p["period"], i)) / 2 for i in range(len(t["sd"]))], sp.eps)]),
    "VerticalHorizontalFilter": NONNEG("vhf"), "MarketFacilitationIndex": NONNEG("mfi"), "MassIndex": NONNEG("mi"),
    "NegativeVolumeIndex": NONNEG("nvi"), "PositiveVolumeIndex": NONNEG("pvi"),
    "BollingerBands": _boll, "Envelopes": order("lower_band", "upper_band"),
    "PriceChannel": both(order("lowest_low", "highest_high"), cover("l", "h", ["lowest_low", "highest_high"], lambda q: q["period"] + 1)),
    "ProjectionBands": _pb, "FibonacciRetracement": _fib, "IchimokuCloud": _ichi, "MovingAverage": _ma,
    "WildersSmoothing": cover("c", "c", ["ws"]), "ParabolicSAR": cover("l", "h", ["sar"]),
    "MedianPrice": cover("l", "h", ["mp"], lambda q: 1), "TypicalPrice": cover("l", "h", ["tp"], lambda q: 1), "WeightedClose": cover("l", "h", ["wc"], lambda q: 1),
}


def jobs(tier):
    q = tier == "quick"
    out = []
    for name in RANGES:
        sp = SPECS[name]
        cf = list(sp.small)
        for p in sp.long:
            if p not in cf:
                cf.append(p)
        for p in cf:
            for s in LONGS[:8] if q else LONGS + MORE:
                out.append(dict(kind="long", ind=name, p=p, series=s))
        for p in sp.small:
            need = sp.minrows(sp.params(p))
            if need > 8:
                for b in ("bars", "mixed", "flat") + (() if q else ("up", "osc")):
                    out.append(dict(kind="small", ind=name, p=p, prefix=b, n=need - 1, L=2 if q else 4, a=8))
            else:
                out.append(dict(kind="small", ind=name, p=p, prefix="flat", n=0, L=3 if q else 4, a=6 if q else 8))
                if not q:
                    out.append(dict(kind="small", ind=name, p=p, prefix="flat", n=0, L=5, a=4))
        if "period" in sp.params({}):
            for n in range(1, 25 if q else 61):
                p = dict(period=n)
                if name == "MovingAverage":
                    p["ma_type"] = ("simple", "exponential", "triangular", "variable")[n % 4]
                elif name in ("ProjectionBands", "ProjectionOscillator") and n == 1:
                    continue
                for s in (("spikes",) if q else ("spikes", "geo", "regimes", "bars4")):
                    out.append(dict(kind="long", ind=name, p=p, series=s))
    out.sort(key=lambda j: j["kind"] != "small")
    return out


def judge(sp, p, bars, r, where):
    full = sp.params(p)
    d = W.cols_of(bars)
    t = tab(build(sp, p, W.frame(bars)).getTiData())
    r.execs += 1
    r.transitions += len(bars)
    r.states += len(bars)
    for c, lo, hi, eps in RANGES[sp.name](sp, full, d, t):
        xs = t[c]
        for i, x in enumerate(xs):
            if x != x:
                continue
            r.compared += 1
            a, b = lo[i], hi[i]
            e = eps + 1e-9 * abs(x)
            if x < a - e or x > b + e:
                r.fail("%s:range" % sp.name, "%s column %s row %d is %r, outside [%r, %r] [%s]" % (label(sp, p), c, i, x, a, b, where), bars=bars[max(0, i - 40): i + 1])
                return False
            if x <= a + e or x >= b - e:
                r.nontrivial += 1
                r.count("at_bound/" + sp.name)
    return True


def run_job(job, r):
    sp, p = SPECS[job["ind"]], job["p"]
    if job["kind"] == "long":
        bars = W.long(job["series"])
        judge(sp, p, bars, r, "series " + job["series"])
        r.sample(indicator=label(sp, p), series=job["series"], rows=len(bars))
        return
    pre = W.base_prefix(job["prefix"], job["n"])
    need = sp.minrows(sp.params(p))
    for L in range(1, job["L"] + 1):
        if len(pre) + L < need:
            continue
        for seq in W.products(ALPHA[:job["a"]], L):
            if not judge(sp, p, pre + list(seq), r, "%d base bars + %d" % (len(pre), L)):
                return


def finish(tier, tot):
    free = {"Envelopes", "NegativeVolumeIndex", "PositiveVolumeIndex", "MassIndex", "ProjectionOscillator", "ChaikinMoneyFlow"}
    return ["%s never reaches a bound" % n for n in RANGES if n not in free and not tot.counts.get("at_bound/" + n)]
