"""Reference definition of every indicator: values, signal rule, shape, units, range.

Everything here is written from the documentation and the public behaviour of
the library (column names, formulas, signal rules, minimum data); nothing is
imported from it.
"""
from fractions import Fraction
from .refmath import *

SPECS = {}


class Spec:
    def __init__(self, name, fam, cols, out, minrows, ref, rule, small, long, deg, causal=True, drop=None, tol=1.2e-4,
                 bounds=None, rounding=4):
        self.name, self.fam, self.cols = name, fam, cols
        self._out, self._min, self.ref, self.rule = out, minrows, ref, rule
        self.small, self.long = small, long          # parameter sets
        self.deg = deg                               # (price degree, volume degree) per column, or None: not homogeneous
        self.causal = causal
        self.drop = drop or (lambda p: 0)            # rows missing at the end of the table
        self.tol = tol
        self.bounds = bounds
        self.grid = rounding if name != "OnBalanceVolume" else None      # published decimals
        self.eps = 1.01 * 10.0 ** -rounding          # one step of the published rounding

    def out(self, p):
        return self._out(p) if callable(self._out) else list(self._out)

    def minrows(self, p):
        return self._min(p) if callable(self._min) else self._min

    def params(self, p):
        d = dict(DEFAULTS.get(self.name, {}))
        d.update(p)
        return d


DEFAULTS = {
    "BollingerBands": dict(period=20, std_number=2), "ChaikinMoneyFlow": dict(period=5),
    "ChandeMomentumOscillator": dict(period=5), "CommodityChannelIndex": dict(period=5),
    "DetrendedPriceOscillator": dict(period=6), "DoubleExponentialMovingAverage": dict(period=5),
    "EaseOfMovement": dict(period=40), "Envelopes": dict(period=20, shift=0.1), "ForecastOscillator": dict(period=14),
    "IntradayMomentumIndex": dict(period=14), "LinearRegressionIndicator": dict(period=14),
    "LinearRegressionSlope": dict(period=14), "MedianPrice": dict(period=20), "Momentum": dict(period=12),
    "MovingAverage": dict(period=20, ma_type="simple"), "Performance": dict(mode="LONG", target=0.05),
    "PriceChannel": dict(period=5), "PriceOscillator": dict(long_ma=30, short_ma=10),
    "PriceRateOfChange": dict(period=25), "ProjectionBands": dict(period=14), "ProjectionOscillator": dict(period=14),
    "Qstick": dict(period=8), "RangeIndicator": dict(range_period=5, smoothing_period=3),
    "RelativeMomentumIndex": dict(period=8, momentum_period=4), "RelativeStrengthIndex": dict(period=14),
    "RelativeVolatilityIndex": dict(period=5), "StandardDeviation": dict(period=20),
    "StochasticMomentumIndex": dict(period=5, smoothing_period=3, double_smoothing_period=3),
    "StochasticOscillator": dict(k_periods=14, k_slowing_periods=1, d_periods=3, d_method="simple"),
    "TimeSeriesForecast": dict(period=14), "TripleExponentialMovingAverage": dict(period=5),
    "TypicalPrice": dict(period=200), "VerticalHorizontalFilter": dict(period=5),
    "VolatilityChaikins": dict(ema_period=10, change_period=10), "VolumeOscillator": dict(long_period=5, short_period=2),
    "VolumeRateOfChange": dict(period=5), "WildersSmoothing": dict(period=5), "WilliamsR": dict(period=5),
}


def spec(name, fam, cols, out, minrows, ref, rule, small=None, long=None, deg=(1, 0), **kw):
    SPECS[name] = Spec(name, fam, cols.split(), out, minrows, ref, rule, small or [{}], long or [{}], deg, **kw)


def per(*ns):
    return [{"period": n} for n in ns]


HLC = "high low close"
# ------------------------------------------------------------------ rule helpers


def crossing(col, level, up, down):
    def rule(R, i):
        if i < 1:
            return "hold"
        a, b = R.t[col][i - 1], R.t[col][i]
        lo, hi = level if isinstance(level, tuple) else (level, level)
        if a < hi < b:
            return up
        if a > lo > b:
            return down
        return "hold"
    return rule


def price_cross(col, falls_below, rises_above):
    def rule(R, i):
        if i < 1:
            return "hold"
        t, c = R.t[col], R.c
        if c[i - 1] > t[i - 1] and c[i] < t[i]:
            return falls_below
        if c[i - 1] < t[i - 1] and c[i] > t[i]:
            return rises_above
        return "hold"
    return rule


def trend3(col, rising, falling):
    def rule(R, i):
        if i < 2:
            return "hold"
        a, b, c = R.t[col][i - 2: i + 1]
        if a < b < c:
            return rising
        if a > b > c:
            return falling
        return "hold"
    return rule


def outside(upper, lower):
    def rule(R, i):
        c = R.c[i]
        if c > R.t[upper][i]:
            return "sell"
        if c < R.t[lower][i]:
            return "buy"
        return "hold"
    return rule


def clv_flow(d):
    return [div(v * ((c - l) - (h - c)), h - l) for h, l, c, v in zip(d["h"], d["l"], d["c"], d["v"])]


# ================================================================== averages, bands, price levels


def _ma(d, p):
    n, kind = p["period"], p["ma_type"]
    c = d["c"]
    if kind == "simple":
        x = sma(c, n)
    elif kind == "exponential":
        x = ema(c, n, n)
    elif kind == "triangular":
        x = sma(sma(c, n), n)
    elif kind == "time_series":
        s, e = ols(c, n)
        x = [a + b for a, b in zip(rnd(s), rnd(e))]
    else:
        vr = [abs(x) / 100 if x == x else NAN for x in rnd(_cmo(d, {"period": 9})["cmo"])]
        k = 2 / (n + 1)
        x = [NAN] * len(c)
        for i in range(21, len(c)):
            if i == 21:
                x[i] = c[i]
            elif x[i - 1] is ANY or vr[i] != vr[i]:
                x[i] = ANY       # volatility ratio undefined: recursion undefined from here on
            else:
                x[i] = k * c[i] * vr[i] + (1 - k * vr[i]) * x[i - 1]
    out = {"ma-" + kind: rnd(x)}
    if kind == "time_series":
        out["_tol"] = {"ma-time_series": ols_tol(c, 2.2e-4)}
    return out


spec("MovingAverage", "avg", "close", lambda p: ["ma-" + p["ma_type"]],
     lambda p: 22 if p["ma_type"] == "variable" else p["period"], _ma,
     lambda R, i: "buy" if R.c[i] > R.t["ma-" + R.p["ma_type"]][i] else "hold",
     small=[dict(period=n, ma_type=k) for k in ("simple", "exponential", "triangular") for n in (1, 2, 3)]
     + [dict(period=n, ma_type="time_series") for n in (2, 3)] + [dict(period=3, ma_type="variable")],
     long=[dict(period=n, ma_type=k) for k in ("simple", "exponential", "triangular", "time_series", "variable") for n in (5, 20, 61)]
     + [dict(period=1, ma_type="variable")])


def _dema(d, p):
    e = ema(d["c"], p["period"], p["period"])
    ee = ema(e, p["period"], p["period"])
    return {"dema": rnd([2 * a - b for a, b in zip(e, ee)])}


spec("DoubleExponentialMovingAverage", "avg", "close", ["dema"], lambda p: p["period"], _dema,
     lambda R, i: "buy" if R.c[i] < R.t["dema"][i] else "hold", small=per(1, 2, 3), long=per(5, 14, 40))


def _tema(d, p):
    n = p["period"]
    e = ema(d["c"], n, n)
    ee = ema(e, n, n)
    eee = ema(ee, n, n)
    return {"tema": rnd([3 * a - 3 * b + c for a, b, c in zip(e, ee, eee)])}


def _tema_rule(R, i):
    t = R.t["tema"][i]
    return "buy" if R.c[i] < t else "sell" if R.c[i] > t else "hold"


spec("TripleExponentialMovingAverage", "avg", "close", ["tema"], lambda p: p["period"], _tema, _tema_rule,
     small=per(1, 2, 3), long=per(5, 14, 40))


def _ws(d, p):
    n, c = p["period"], d["c"]
    out = [NAN] * len(c)
    for i in range(n - 1, len(c)):
        out[i] = math.fsum(c[:n]) / n if i == n - 1 else out[i - 1] + (c[i] - out[i - 1]) / n
    return {"ws": rnd(out)}


spec("WildersSmoothing", "avg", "close", ["ws"], lambda p: p["period"], _ws, price_cross("ws", "buy", "sell"),
     small=per(1, 2, 3), long=per(5, 14, 40))


def std_noise(xs, sd):
    """Bound on the float error of a one-pass deviation: its square is known up to some ulps of the largest square seen so far."""
    out, m = [], 0.0
    for x, s in zip(xs, sd):
        m = max(m, abs(x))
        v = 256 * 2.3e-16 * m * m
        out.append(min(math.sqrt(v), v / s) if s == s and s > 0 else math.sqrt(v))
    return out


def _bb(d, p):
    n, k = p["period"], p["std_number"]
    m = rnd(sma(d["c"], n))
    s = pstd(d["c"], n)
    tol = [1.2e-4 + k * x for x in std_noise(d["c"], s)]
    return {"_tol": {"upper_band": tol, "lower_band": tol},
            "middle_band": m, "upper_band": rnd([a + b * k for a, b in zip(m, s)]),
            "lower_band": rnd([a - b * k for a, b in zip(m, s)])}


spec("BollingerBands", "avg", "close", ["middle_band", "upper_band", "lower_band"], lambda p: p["period"], _bb,
     outside("upper_band", "lower_band"),
     small=[dict(period=n, std_number=k) for n, k in ((1, 2), (2, 1), (2, 0.5), (3, 0.5), (3, 1.25))],
     long=[{}, dict(period=5, std_number=1), dict(period=10, std_number=1.5), dict(period=20, std_number=0.5), dict(period=50)])


def _env(d, p):
    m = sma(d["c"], p["period"])
    return {"upper_band": rnd([(1 + p["shift"]) * x for x in m]), "lower_band": rnd([(1 - p["shift"]) * x for x in m])}


spec("Envelopes", "avg", "close", ["upper_band", "lower_band"], lambda p: p["period"], _env,
     outside("upper_band", "lower_band"),
     small=[dict(period=n, shift=k) for n, k in ((1, 0.1), (2, 0.125), (2, 0.01), (3, 0.05))],
     long=[{}, dict(period=5, shift=0.02), dict(period=9, shift=0.75), dict(period=50, shift=0.05)])


def _sd(d, p):
    s = pstd(d["c"], p["period"])
    return {"sd": rnd(s), "_tol": {"sd": [1.2e-4 + x for x in std_noise(d["c"], s)]}}


def _sd_rule(R, i):
    m = R.memo("sma", lambda: rnd(sma(R.c, R.p["period"])))[i]
    if R.t["sd"][i] > 2:
        if R.c[i] > m:
            return "sell"
        if R.c[i] < m:
            return "buy"
    return "hold"


spec("StandardDeviation", "avg", "close", ["sd"], lambda p: p["period"], _sd, _sd_rule, small=per(1, 2, 3), long=per(5, 20, 50))


def _pch(d, p):
    return {"highest_high": rnd(shift(rmax(d["h"], p["period"]), 1)), "lowest_low": rnd(shift(rmin(d["l"], p["period"]), 1))}


spec("PriceChannel", "avg", HLC, ["highest_high", "lowest_low"], lambda p: p["period"], _pch,
     outside("highest_high", "lowest_low"), small=per(1, 2, 3), long=per(5, 20))


def _pbands(d, p):
    n = p["period"]
    hs, _ = ols(d["h"], n)
    ls, _ = ols(d["l"], n)
    up, lo = [], []
    for i in range(len(d["h"])):
        if i < n - 1:
            up.append(NAN)
            lo.append(NAN)
        else:
            up.append(max(d["h"][i - j] + j * hs[i] for j in range(n)))
            lo.append(min(d["l"][i - j] + j * ls[i] for j in range(n)))
    return {"upper_band": rnd(up), "lower_band": rnd(lo)}


def _pbands_rule(R, i):
    u, l, c = R.t["upper_band"][i], R.t["lower_band"][i], R.c[i]
    if R.lt(u - c, 0.15 * (u - l)):
        return "sell"
    if R.lt(c - l, 0.15 * (u - l)):
        return "buy"
    return "hold"


spec("ProjectionBands", "avg", HLC, ["upper_band", "lower_band"], lambda p: p["period"], _pbands, _pbands_rule,
     small=per(2, 3), long=per(5, 14, 30))

spec("LinearRegressionIndicator", "avg", "close", ["lri"], lambda p: p["period"],
     lambda d, p: {"lri": rnd(ols(d["c"], p["period"])[1]), "_tol": {"lri": ols_tol(d["c"], 1.2e-4)}}, price_cross("lri", "buy", "sell"), small=per(2, 3), long=per(5, 14, 30))
spec("LinearRegressionSlope", "avg", "close", ["lrs"], lambda p: p["period"],
     lambda d, p: {"lrs": rnd(ols(d["c"], p["period"])[0])}, crossing("lrs", 0.0, "sell", "buy"), small=per(2, 3), long=per(5, 14, 30))


def ols_tol(c, step):
    """Regressions over absolute row numbers lose some digits; sums of two published figures lose two rounding steps."""
    return [step + 2e-8 * x for x in c]


def _tsf(d, p):
    s, e = ols(d["c"], p["period"])
    return {"tsf": rnd([a + b for a, b in zip(rnd(s), rnd(e))]), "_tol": {"tsf": ols_tol(d["c"], 2.2e-4)}}


spec("TimeSeriesForecast", "avg", "close", ["tsf"], lambda p: p["period"], _tsf, price_cross("tsf", "buy", "sell"),
     small=per(2, 3), long=per(5, 14, 30))

FIB = [("rl_0.0", 0.0), ("rl_23.6", 0.236), ("rl_38.2", 0.382), ("rl_50.0", 0.5), ("rl_61.8", 0.618), ("rl_100.0", 1.0)]


def _fib(d, p):
    hi, lo = max(d["c"]), min(d["c"])
    return {n: rnd([hi - k * (hi - lo)] * len(d["c"])) for n, k in FIB}


def _fib_rule(R, i):
    if i < 1:
        return "hold"
    lv = [R.t[n] for n in ("rl_61.8", "rl_50.0", "rl_38.2", "rl_23.6")]
    if any(R.c[i - 1] > t[i - 1] and R.c[i] < t[i] for t in lv):
        return "buy"
    if any(R.c[i - 1] < t[i - 1] and R.c[i] > t[i] for t in lv):
        return "sell"
    return "hold"


spec("FibonacciRetracement", "avg", "close", [n for n, _ in FIB], 1, _fib, _fib_rule, causal=False)


def _ichi(d, p):
    mid = lambda n: [(a + b) / 2 for a, b in zip(rmax(d["h"], n, 1), rmin(d["l"], n, 1))]
    t, k, s = mid(9), mid(26), mid(52)
    return {"tenkan_sen": rnd(t), "kijun_sen": rnd(k), "senkou_a": rnd(shift([(a + b) / 2 for a, b in zip(t, k)], 26)),
            "senkou_b": rnd(shift(s, 26))}


def _ichi_rule(R, i):
    if i < 1:
        return "hold"
    t, k, a, b = (R.t[n] for n in ("tenkan_sen", "kijun_sen", "senkou_a", "senkou_b"))
    if a[i] != a[i] or b[i] != b[i]:
        return "hold"
    top, bot = max(a[i], b[i]), min(a[i], b[i])
    three = (R.c[i], t[i], k[i])
    if t[i - 1] < k[i - 1] and t[i] > k[i] and all(x > top for x in three):
        return "buy"
    if t[i - 1] > k[i - 1] and t[i] < k[i] and all(x < bot for x in three):
        return "sell"
    return "hold"


spec("IchimokuCloud", "avg", HLC, ["tenkan_sen", "kijun_sen", "senkou_a", "senkou_b"], 1, _ichi, _ichi_rule)


def _sar(d, p):
    H, L = d["h"], d["l"]
    out = []
    for i in range(len(H)):
        if i == 0:
            af, start = 0.02, 0
            long_ = H[1] > H[0]
            ep, sar = (H[0], L[0]) if long_ else (L[0], H[0])
        else:
            nep = max(H[start: i + 1]) if long_ else min(L[start: i + 1])
            naf = min(0.2, af + 0.02) if (nep > ep if long_ else nep < ep) else af
            ns = sar + af * (ep - sar)
            lo2, hi2 = min(L[max(0, i - 2): i]), max(H[max(0, i - 2): i])
            ns = min(ns, lo2) if long_ else max(ns, hi2)
            if (long_ and L[i] < ns) or (not long_ and H[i] > ns):
                ns = max(H[start:i]) if long_ else min(L[start:i])
                nep = L[i] if long_ else H[i]
                naf, long_, start = 0.02, not long_, i
            af, ep, sar = naf, nep, ns
        out.append(sar)
    return {"sar": rnd(out)}


spec("ParabolicSAR", "avg", HLC, ["sar"], 2, _sar, price_cross("sar", "sell", "buy"))


def _mp_rule(R, i):
    n = R.p["period"]
    if i < 1 or i + 1 < n:
        return "hold"
    e = R.memo("ema", lambda: ema(R.c, n, n))
    t = R.t["mp"]
    x, y = R.const(R.c, i - 1), R.const(R.c, i)
    if R.lt(e[i - 1], t[i - 1], exact=x) and R.lt(t[i], e[i], exact=y):
        return "buy"
    if R.lt(t[i - 1], e[i - 1], exact=x) and R.lt(e[i], t[i], exact=y):
        return "sell"
    return "hold"


spec("MedianPrice", "avg", HLC, ["mp"], 1, lambda d, p: {"mp": rnd([0.5 * (h + l) for h, l in zip(d["h"], d["l"])])},
     _mp_rule, small=per(1, 2, 3), long=per(5, 20, 50))


def _tp_rule(R, i):
    n = R.p["period"]
    if i + 1 < n:
        return "hold"
    m = R.memo("sma", lambda: sma(R.c, n))
    return "buy" if R.lt(m[i], R.t["tp"][i], exact=R.exact(R.c, i, n)) else "hold"


spec("TypicalPrice", "avg", HLC, ["tp"], 1,
     lambda d, p: {"tp": rnd([(h + l + c) / 3 for h, l, c in zip(d["h"], d["l"], d["c"])])}, _tp_rule,
     small=per(1, 2, 3), long=per(5, 30, 200))
spec("WeightedClose", "avg", HLC, ["wc"], 1,
     lambda d, p: {"wc": rnd([(2 * c + h + l) / 4 for h, l, c in zip(d["h"], d["l"], d["c"])])},
     price_cross("wc", "buy", "sell"))


def true_range(d, first):
    H, L, C = d["h"], d["l"], d["c"]
    return [first(H[0], L[0])] + [max(H[i] - L[i], H[i] - C[i - 1], C[i - 1] - L[i]) for i in range(1, len(H))]


def _atr(d, p):
    tr = true_range(d, lambda h, l: h - l)
    out = [NAN] * len(tr)
    for i in range(13, len(tr)):
        out[i] = math.fsum(tr[:14]) / 14 if i == 13 else (13 * out[i - 1] + tr[i]) / 14
    return {"atr": rnd(out)}


def _atr_rule(R, i):
    if i + 1 < 10:
        return "hold"
    if not R.lt(0.01 * R.c[i], R.t["atr"][i]):
        return "hold"
    m5 = R.memo("m5", lambda: sma(R.c, 5))[i]
    m10 = R.memo("m10", lambda: sma(R.c, 10, 5))[i]
    if R.c[i] > m5:
        return "buy" if R.c[i] > m10 else "sell"
    if R.c[i] < m5:
        return "buy"
    return "hold"


spec("AverageTrueRange", "avg", HLC, ["atr"], 14, _atr, _atr_rule)

# ================================================================== momentum and oscillators


def _cmo(d, p):
    n = p["period"]
    ch = diff(d["c"])
    up = rsum([NAN if x != x else max(x, 0.0) for x in ch], n)
    dn = rsum([NAN if x != x else max(-x, 0.0) for x in ch], n)
    return {"cmo": rnd([div(100 * (a - b), a + b) for a, b in zip(up, dn)])}


spec("ChandeMomentumOscillator", "osc", "close", ["cmo"], lambda p: p["period"], _cmo,
     crossing("cmo", (-50.0, 50.0), "sell", "buy"), small=per(1, 2, 3), long=per(5, 9, 20), deg=(0, 0))


def _cci(d, p):
    n = p["period"]
    tp = [(h + l + c) / 3 for h, l, c in zip(d["h"], d["l"], d["c"])]
    m = sma(tp, n)
    out = []
    for i in range(len(tp)):
        if i < n - 1:
            out.append(NAN)
            continue
        w = tp[i - n + 1: i + 1]
        dev = math.fsum(abs(m[i] - x) for x in w)
        if max(w) == min(w):
            out.append(NAN)      # 0/0
        elif dev < 1e-9 * max(w):
            out.append(ANY)
        else:
            out.append((tp[i] - m[i]) / (0.015 * dev / n))
    return {"cci": rnd(out)}


def _cci_rule(R, i):
    x = R.t["cci"][i]
    return "buy" if x < -100 else "sell" if x > 100 else "hold"


spec("CommodityChannelIndex", "osc", HLC, ["cci"], lambda p: p["period"], _cci, _cci_rule, small=per(2, 3, 4),
     long=per(5, 14, 20), deg=(0, 0))


def _dpo(d, p):
    n = p["period"]
    k = 1 + n // 2
    m = shift(sma(d["c"], n), -k)
    return {"dpo": rnd([a - b for a, b in zip(d["c"], m)][: max(0, len(m) - k)])}


spec("DetrendedPriceOscillator", "osc", "close", ["dpo"], lambda p: p["period"], _dpo, crossing("dpo", 0.0, "buy", "sell"),
     small=per(1, 2, 3), long=per(5, 6, 21), causal=False, drop=lambda p: 1 + p["period"] // 2)


def _dmi(d, p):
    H, L, C = d["h"], d["l"], d["c"]
    N = len(H)
    tr, pdm, ndm = [NAN] * N, [NAN] * N, [NAN] * N
    for i in range(1, N):
        tr[i] = max(H[i] - L[i], H[i] - C[i - 1], C[i - 1] - L[i])
        u, w = H[i] - H[i - 1], L[i - 1] - L[i]
        pdm[i] = u if u > w and u > 0 else 0.0
        ndm[i] = w if w > u and w > 0 else 0.0
    pdi, ndi, dx, adx, adxr = ([NAN] * N for _ in range(5))
    st = sp = sn = None
    for i in range(13, N):
        if i == 13:
            st, sp, sn = (math.fsum(x[1:14]) for x in (tr, pdm, ndm))
            continue
        st, sp, sn = st - st / 14 + tr[i], sp - sp / 14 + pdm[i], sn - sn / 14 + ndm[i]
        pdi[i], ndi[i] = div(100 * sp, st), div(100 * sn, st)
        dx[i] = div(100 * abs(pdi[i] - ndi[i]), pdi[i] + ndi[i])
    skip = [x for x in dx[14:28] if x == x]
    for i in range(27, N):
        if i == 27:
            adx[i] = math.fsum(skip) / 14
        else:
            adx[i] = (13 * adx[i - 1] + dx[i]) / 14
    for i in range(40, N):
        adxr[i] = (adx[i] + adx[i - 13]) / 2
    return {"+di": rnd(pdi), "-di": rnd(ndi), "dx": rnd(dx), "adx": rnd(adx), "adxr": rnd(adxr)}


def _dmi_rule(R, i):
    if i < 1:
        return "hold"
    p, n, a = R.t["+di"], R.t["-di"], R.t["adxr"]
    if p[i - 1] > n[i - 1] and p[i] < n[i] and a[i] >= 20:
        return "sell"
    if p[i - 1] < n[i - 1] and p[i] > n[i] and a[i] >= 20:
        return "buy"
    return "hold"


spec("DirectionalMovementIndex", "osc", HLC, ["+di", "-di", "dx", "adx", "adxr"], 28, _dmi, _dmi_rule, deg=(0, 0))


def _fosc(d, p):
    f = shift(_tsf(d, p)["tsf"], 1)
    return {"fosc": rnd([div(100 * (c - x), c) if c else ANY if x == x else x for c, x in zip(d["c"], f)]),
            "_tol": {"fosc": [1.2e-4 + 2e-6 + 100 * 2.2e-4 / abs(c) if c else 0.0 for c in d["c"]]}}      # the forecast is a sum of two published 4-decimal figures


spec("ForecastOscillator", "osc", "close", ["fosc"], lambda p: p["period"], _fosc, crossing("fosc", 0.0, "sell", "buy"),
     small=per(2, 3), long=per(5, 14, 30), deg=(0, 0))


def _imi(d, p):
    n = p["period"]
    up = rsum([max(c - o, 0.0) for o, c in zip(d["o"], d["c"])], n)
    dn = rsum([max(o - c, 0.0) for o, c in zip(d["o"], d["c"])], n)
    return {"imi": rnd([div(100 * a, a + b) for a, b in zip(up, dn)])}


spec("IntradayMomentumIndex", "osc", "open close", ["imi"], lambda p: p["period"], _imi,
     crossing("imi", (30.0, 70.0), "sell", "buy"), small=per(1, 2, 3), long=per(5, 14, 20), deg=(0, 0))


def _macd(d, p):
    m = [a - b for a, b in zip(rnd(ema(d["c"], 12, 12)), rnd(ema(d["c"], 26, 26)))]
    return {"macd": rnd(m), "signal_line": rnd(ema(m, 9, 9))}


def _macd_rule(R, i):
    if i < 1:
        return "hold"
    m, s = R.t["macd"], R.t["signal_line"]
    if m[i - 1] < 0 < m[i]:
        return "buy"
    if m[i - 1] > 0 > m[i]:
        return "sell"
    if m[i - 1] > s[i - 1] and m[i] < s[i]:
        return "sell"
    if m[i - 1] < s[i - 1] and m[i] > s[i]:
        return "buy"
    return "hold"


spec("MovingAverageConvergenceDivergence", "osc", "close", ["macd", "signal_line"], 26, _macd, _macd_rule, tol=2.2e-4)


def _mi(d, p):
    hl = [h - l for h, l in zip(d["h"], d["l"])]
    e = ema(hl, 9, 9)
    ee = ema(e, 9, 9)
    return {"mi": rnd(rsum([div(a, b) for a, b in zip(e, ee)], 25))}


def _mi_rule(R, i):
    if i < 1:
        return "hold"
    m = R.t["mi"]
    if not m[i] < 26.5:
        return "hold"
    bulge = False
    for j in range(i - 1, -1, -1):
        if m[j] < 26.5:
            break
        if m[j] > 27.0:
            bulge = True
            break
    if bulge:
        e = R.memo("e9", lambda: ema(R.c, 9, 9))
        y = R.const(R.c, i)
        if R.lt(e[i - 1], e[i], exact=y):
            return "sell"
        if R.lt(e[i], e[i - 1], exact=y):
            return "buy"
    return "hold"


spec("MassIndex", "osc", HLC, ["mi"], 25, _mi, _mi_rule, deg=(0, 0))


def _mom(d, p):
    return {"mom": rnd([div(100.0 * a, b) for a, b in zip(d["c"], shift(d["c"], p["period"]))])}


def _mom_rule(R, i):
    if i + 1 < 9:
        return "hold"
    m = R.t["mom"]
    e = R.memo("e9", lambda: ema(m, 9, 9))
    x, y = R.const(m, i - 1), R.const(m, i)
    if R.lt(m[i - 1], e[i - 1], exact=x) and R.lt(e[i], m[i], exact=y):
        return "sell"
    if R.lt(e[i - 1], m[i - 1], exact=x) and R.lt(m[i], e[i], exact=y):
        return "buy"
    return "hold"


spec("Momentum", "osc", "close", ["mom"], lambda p: p["period"], _mom, _mom_rule, small=per(1, 2, 3), long=per(5, 12, 30), deg=(0, 0))


def _prf(d, p):
    c0 = d["c"][0]
    return {"prf": rnd([(c - c0) / c0 if c0 else ANY for c in d["c"]]), "target_" + p["mode"]: rnd([float(p["target"])] * len(d["c"]))}


def _prf_rule(R, i):
    x, t = R.t["prf"][i], R.p["target"]
    if R.p["mode"] == "LONG" and x >= t:
        return "sell"
    if R.p["mode"] == "SHORT" and x <= t:
        return "buy"
    return "hold"


spec("Performance", "osc", "close", lambda p: ["prf", "target_" + p["mode"]], 1, _prf, _prf_rule,
     small=[dict(mode=m, target=t) for m, t in (("LONG", 0.05), ("LONG", 0), ("LONG", 0.25), ("SHORT", 0), ("SHORT", -0.25), ("SHORT", -0.1))],
     long=[dict(mode="LONG", target=0.5), dict(mode="SHORT", target=-0.125), dict(mode="LONG", target=2)], deg=(0, 0))


def _posc(d, p):
    lo, sh = sma(d["c"], p["long_ma"]), sma(d["c"], p["short_ma"])
    return {"posc": rnd([div(100 * (s - l), l) for s, l in zip(sh, lo)])}


spec("PriceOscillator", "osc", "close", ["posc"], lambda p: p["long_ma"], _posc, crossing("posc", 0.0, "buy", "sell"),
     small=[dict(long_ma=a, short_ma=b) for a, b in ((2, 1), (3, 1), (3, 2))],
     long=[dict(long_ma=a, short_ma=b) for a, b in ((30, 10), (5, 2), (60, 7))], deg=(0, 0))


def _prc(d, p):
    return {"prc": rnd([div(100 * (a - b), b) for a, b in zip(d["c"], shift(d["c"], p["period"]))])}


spec("PriceRateOfChange", "osc", "close", ["prc"], lambda p: p["period"], _prc, trend3("prc", "sell", "buy"),
     small=per(1, 2, 3), long=per(5, 12, 25), deg=(0, 0))


def _pro(d, p):
    b = _pbands(d, p)
    x, tol = [], []
    for c, u, l in zip(d["c"], b["upper_band"], b["lower_band"]):
        w = abs(u - l)
        if u == u and u != l and w < 2e-3:
            x.append(ANY)        # narrow bands: dominated by the rounding of the bands
        else:
            x.append(div(100 * (c - l), u - l))
        tol.append(1.2e-4 if not w > 0 else 1.2e-4 + 100 * 2e-4 * (1 + abs(c - l) / w) / w)
    tt, m = [], 0.0
    for t in tol:
        m = max(t, m / 2)
        tt.append(m)
    out = {"posc": rnd(x), "_tol": {"posc": tol, "trigger_line": tt}}
    k = next((i for i, v in enumerate(x) if v is ANY), len(x))
    out["trigger_line"] = rnd(ema(x[:k], 3, 3)) + [ANY] * (len(x) - k)
    return out


def _pro_rule(R, i):
    if i < 3:
        return "hold"
    x, t = R.t["posc"], R.t["trigger_line"]
    if x[i - 1] < 15 < x[i]:
        return "buy"
    if x[i - 1] > 85 > x[i]:
        return "sell"
    if x[i - 3] < t[i - 3] and x[i - 2] < t[i - 2] and x[i - 1] > t[i - 1] and x[i] > t[i]:
        return "buy"
    if x[i - 3] > t[i - 3] and x[i - 2] > t[i - 2] and x[i - 1] < t[i - 1] and x[i] < t[i]:
        return "sell"
    return "hold"


spec("ProjectionOscillator", "osc", HLC, ["posc", "trigger_line"], lambda p: p["period"], _pro, _pro_rule,
     small=per(2, 3), long=per(5, 14, 30), deg=(0, 0))


def _qs(d, p):
    return {"qstick": rnd(sma([c - o for o, c in zip(d["o"], d["c"])], p["period"]))}


def _qs_rule(R, i):
    if i < 3:
        return "hold"
    a, b, c, e = R.t["qstick"][i - 3: i + 1]
    if a < b < 0 < c < e:
        return "buy"
    if a > b > 0 > c > e:
        return "sell"
    return "hold"


spec("Qstick", "osc", "open close", ["qstick"], lambda p: p["period"], _qs, _qs_rule, small=per(1, 2, 3), long=per(5, 8, 20))


def _ri(d, p):
    tr = true_range(d, lambda h, l: NAN)
    C = d["c"]
    st = [NAN] + [tr[i] / (C[i] - C[i - 1]) if C[i] > C[i - 1] else tr[i] for i in range(1, len(C))]
    lo, hi = rmin(st, p["range_period"]), rmax(st, p["range_period"])
    x = [NAN if a != a else 100 * (s - a) / (b - a) if b > a else 0.0 for s, a, b in zip(st, lo, hi)]
    return {"ri": rnd(ema(x, p["smoothing_period"], p["smoothing_period"]))}


def _ri_rule(R, i):
    if i < 1:
        return "hold"
    t, c = R.t["ri"], R.c
    if t[i - 1] < 20 < t[i]:
        return "buy" if c[i - 1] < c[i] else "sell"
    if t[i - 1] < 70 < t[i]:
        for j in range(i, -1, -1):
            if t[j] < 20:
                return "sell" if c[j] < c[i] else "buy"
        return "hold"
    return "hold"


spec("RangeIndicator", "osc", "high low close volume", ["ri"], lambda p: max(p["range_period"], p["smoothing_period"]), _ri, _ri_rule,
     small=[dict(range_period=a, smoothing_period=b) for a, b in ((1, 1), (2, 1), (2, 2), (3, 1), (2, 3))],
     long=[dict(range_period=a, smoothing_period=b) for a, b in ((5, 3), (10, 1), (3, 7))], deg=None)


def _rmi(d, p):
    n, m = p["period"], p["momentum_period"]
    ch = diff(d["c"], m)
    up = [NAN if x != x else max(x, 0.0) for x in ch]
    dn = [NAN if x != x else max(-x, 0.0) for x in ch]
    out = [NAN] * len(ch)
    su = sd = None
    for i in range(n + m - 1, len(ch)):
        if su is None:
            su, sd = math.fsum(up[m: n + m]) / n, math.fsum(dn[m: n + m]) / n
        else:
            su, sd = su + (up[i] - su) / n, sd + (dn[i] - sd) / n
        out[i] = div(100 * su, su + sd)
    return {"rmi": rnd(out)}


spec("RelativeMomentumIndex", "osc", "close", ["rmi"], lambda p: p["period"] + p["momentum_period"], _rmi,
     crossing("rmi", (30.0, 70.0), "sell", "buy"),
     small=[dict(period=a, momentum_period=b) for a, b in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1))],
     long=[dict(period=a, momentum_period=b) for a, b in ((8, 4), (14, 1), (3, 10))], deg=(0, 0))


def _rsi(d, p):
    n, C = p["period"], d["c"]
    up = [NAN] + [round(max(C[i] - C[i - 1], 0.0), 4) for i in range(1, len(C))]
    dn = [NAN] + [round(max(C[i - 1] - C[i], 0.0), 4) for i in range(1, len(C))]
    out, tol = [NAN] * len(C), [1.2e-4] * len(C)
    su = sd = None
    moved = False
    for i in range(n, len(C)):
        if i == n:
            su, sd = math.fsum(up[1: n + 1]) / n, math.fsum(dn[1: n + 1]) / n
        else:
            su, sd = round(su + (up[i] - su) / n, 4), round(sd + (dn[i] - sd) / n, 4)
        w = su + sd
        moved = moved or w > 0
        if not moved:
            continue
        if w < 4e-4 * n:
            out[i] = ANY             # averages of a few rounding steps
        else:
            out[i] = 100.0 * su / w
            tol[i] += 100 * 1e-4 * (n + 2) / w        # the averages are kept to 4 decimals
    return {"rsi": rnd(out), "_tol": {"rsi": tol}}


spec("RelativeStrengthIndex", "osc", "close", ["rsi"], lambda p: p["period"] + 1, _rsi,
     crossing("rsi", (30.0, 70.0), "sell", "buy"), small=per(1, 2, 3), long=per(5, 14, 30), deg=(0, 0))


def _rvi(d, p):
    n = p["period"]
    acc, tol = {}, [1.2e-4] * len(d["h"])
    for key, xs in (("h", d["h"]), ("l", d["l"])):
        sd, ch = pstd(xs, 10), diff(xs)
        no = std_noise(xs, sd)
        u = [s if x > 0 else 0.0 for s, x in zip(sd, ch)]
        w = [s if x < 0 else 0.0 for s, x in zip(sd, ch)]
        out = [NAN] * len(xs)
        a = b = e = None
        for i in range(n + 8, len(xs)):
            if a is None:
                a, b, e = math.fsum(u[9: n + 9]) / n, math.fsum(w[9: n + 9]) / n, math.fsum(no[9: n + 9]) / n
            else:
                a, b, e = a + (u[i] - a) / n, b + (w[i] - b) / n, e + (no[i] - e) / n
            noise = 200 * e / (a + b) if a + b > 0 else 0.0
            out[i] = ANY if 0 < a + b < 1e-6 or noise > 5 or 0 < a + b < 1e-9 * max(xs[: i + 1]) else div(100 * a, a + b)
            tol[i] += noise
        acc[key] = out
    return {"rvi": rnd([ANY if (a is ANY or b is ANY) else (a + b) / 2 for a, b in zip(acc["h"], acc["l"])]), "_tol": {"rvi": tol}}


spec("RelativeVolatilityIndex", "osc", "high low", ["rvi"], lambda p: p["period"] + 10, _rvi, crossing("rvi", (40.0, 60.0), "sell", "buy"),
     small=per(1, 2), long=per(5, 14), deg=(0, 0))


def _smi(d, p):
    hh, ll = rmax(d["h"], p["period"]), rmin(d["l"], p["period"])
    a, b = p["smoothing_period"], p["double_smoothing_period"]
    num = ema(ema([c - (x + y) / 2 for c, x, y in zip(d["c"], hh, ll)], a, a), b, b)
    den = ema(ema([x - y for x, y in zip(hh, ll)], a, a), b, b)
    return {"smi": rnd([ANY if 0 < abs(y) < 1e-6 else 100 * div(x, 0.5 * y) if y == y else NAN for x, y in zip(num, den)])}


spec("StochasticMomentumIndex", "osc", HLC, ["smi"], lambda p: p["period"], _smi, crossing("smi", (-40.0, 40.0), "sell", "buy"),
     small=[dict(period=a, smoothing_period=b, double_smoothing_period=c) for a, b, c in ((1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 1, 2), (3, 2, 2))],
     long=[{}, dict(period=10, smoothing_period=2, double_smoothing_period=5), dict(period=14, smoothing_period=9, double_smoothing_period=2)], deg=(0, 0))


def _so(d, p):
    ll, hh = rmin(d["l"], p["k_periods"]), rmax(d["h"], p["k_periods"])
    s = p["k_slowing_periods"]
    k = rnd([div(100 * a, b) for a, b in zip(rsum([c - x for c, x in zip(d["c"], ll)], s), rsum([y - x for x, y in zip(ll, hh)], s))])
    n = p["d_periods"]
    return {"%K": k, "%D": rnd(sma(k, n) if p["d_method"] == "simple" else ema(k, n, n))}


def _so_rule(R, i):
    if i < 1:
        return "hold"
    k, d = R.t["%K"], R.t["%D"]
    if k[i - 1] > 80 > k[i] or d[i - 1] > 80 > d[i]:
        return "sell"
    if k[i - 1] < 20 < k[i] or d[i - 1] < 20 < d[i]:
        return "buy"
    if k[i - 1] > k[i] and k[i] < d[i] and k[i] > 80:
        return "sell"
    if k[i - 1] < k[i] and k[i] > d[i] and k[i] < 20:
        return "buy"
    return "hold"


spec("StochasticOscillator", "osc", HLC, ["%K", "%D"], lambda p: p["k_periods"], _so, _so_rule,
     small=[dict(k_periods=a, k_slowing_periods=b, d_periods=c, d_method=m)
            for a, b, c, m in ((1, 1, 1, "simple"), (2, 1, 2, "simple"), (2, 3, 1, "simple"), (2, 1, 2, "exponential"), (3, 1, 3, "exponential"), (3, 3, 2, "simple"))],
     long=[{}, dict(k_slowing_periods=3), dict(d_method="exponential"), dict(k_periods=5, k_slowing_periods=3, d_periods=9, d_method="exponential"), dict(k_periods=20, d_periods=5)],
     deg=(0, 0), tol=2.2e-4)


def _swi(d, p):
    O, H, L, C = d["o"], d["h"], d["l"], d["c"]
    out = [NAN]
    for i in range(1, len(C)):
        yc, yo = C[i - 1], O[i - 1]
        num = (C[i] - yc) + 0.5 * (C[i] - O[i]) + 0.25 * (yc - yo)
        k = max(abs(H[i] - yc), abs(L[i] - yc))
        r = max(k, H[i] - L[i]) + 0.25 * abs(yc - yo)
        x = mul(50 * div(num, r), k / 3)
        out.append(x if x != x else max(-100.0, min(100.0, x)))
    return {"swi": rnd(out)}


spec("SwingIndex", "osc", "open high low close", ["swi"], 1, _swi, crossing("swi", 0.0, "sell", "buy"), deg=None)


def _uosc(d, p):
    H, L, C = d["h"], d["l"], d["c"]
    bu, rg = [NAN], [NAN]
    for i in range(1, len(C)):
        tl, th = min(L[i], C[i - 1]), max(H[i], C[i - 1])
        bu.append(C[i] - tl)
        rg.append(th - tl)
    q = {n: [div(a, b) for a, b in zip(rsum(bu, n), rsum(rg, n))] for n in (7, 14, 28)}
    return {"uosc": rnd([100 * (4 * a + 2 * b + c) / 7 for a, b, c in zip(q[7], q[14], q[28])])}


def _uosc_rule(R, i):
    if i + 1 < 30:
        return "hold"
    u, c = R.t["uosc"][i - 29: i + 1], R.c[i - 29: i + 1]
    val = [x for x in u if x == x]
    if not val or u[-1] != u[-1]:
        return "hold"
    prev = [x for x in u[:-1] if x == x]
    if c.index(min(c)) != u.index(min(val)) and min(val) < 30 and prev and max(prev) < u[-1]:
        return "buy"
    return "hold"


spec("UltimateOscillator", "osc", HLC, ["uosc"], 28, _uosc, _uosc_rule, deg=(0, 0))


def _vhf(d, p):
    n, c = p["period"], d["c"]
    s = rsum([abs(x) if x == x else NAN for x in diff(c)], n)
    return {"vhf": rnd([div(a - b, t) for a, b, t in zip(rmax(c, n), rmin(c, n), s)])}


def _vhf_rule(R, i):
    if i < 2:
        return "hold"
    a, b, c = R.t["vhf"][i - 2: i + 1]
    if a < b < c:
        if i + 1 < 5:
            return "hold"
        x = R.memo("dema", lambda: _dema({"c": R.c}, {"period": 5})["dema"])[i]
        return "buy" if R.lt(R.c[i], x, 1.2e-4) else "hold"
    if a > b > c:
        if i + 1 < 12:
            return "hold"
        m = R.memo("mom", lambda: _mom({"c": R.c}, {"period": 12})["mom"])
        e = R.memo("e9", lambda: ema(m, 9, 9))
        if R.lt(m[i - 1], e[i - 1], 3e-4) and R.lt(e[i], m[i], 3e-4):
            return "sell"
        if R.lt(e[i - 1], m[i - 1], 3e-4) and R.lt(m[i], e[i], 3e-4):
            return "buy"
    return "hold"


spec("VerticalHorizontalFilter", "osc", "close", ["vhf"], lambda p: p["period"], _vhf, _vhf_rule, small=per(1, 2, 3), long=per(5, 14, 28), deg=(0, 0))


def _vch(d, p):
    e = ema([h - l for h, l in zip(d["h"], d["l"])], p["ema_period"], p["ema_period"])
    pe = shift(e, p["change_period"])
    return {"vch": rnd([100 * div(a - b, b) for a, b in zip(e, pe)])}


spec("VolatilityChaikins", "osc", "high low", ["vch"], lambda p: max(p["ema_period"], p["change_period"]), _vch, trend3("vch", "buy", "sell"),
     small=[dict(ema_period=a, change_period=b) for a, b in ((1, 1), (2, 1), (1, 2), (3, 1))],
     long=[{}, dict(ema_period=3, change_period=8), dict(ema_period=14, change_period=2)], deg=(0, 0))


def _wr(d, p):
    hh, ll = rmax(d["h"], p["period"]), rmin(d["l"], p["period"])
    return {"wr": rnd([-100 * div(x - c, x - y) for c, x, y in zip(d["c"], hh, ll)])}


def _wr_rule(R, i):
    if i < 1:
        return "hold"
    w = R.t["wr"]
    last = None
    for j in range(i - 1, -1, -1):
        if w[j] <= -80:
            last = "oversold"
            break
        if w[j] >= -20:
            last = "overbought"
            break
    if last == "oversold" and w[i - 1] < -50 < w[i]:
        return "buy"
    if last == "overbought" and w[i - 1] > -50 > w[i]:
        return "sell"
    return "hold"


spec("WilliamsR", "osc", HLC, ["wr"], lambda p: p["period"], _wr, _wr_rule, small=per(1, 2, 3), long=per(5, 14, 30), deg=(0, 0))

# ================================================================== volume


def _adl(d, p):
    out, t, exact = [], 0.0, True
    for x in clv_flow(d):
        if x != x:
            out.append(NAN)
            continue
        t += x
        exact = exact and (x * 4096).is_integer() and abs(x) < 1 << 38
        if not exact and abs(t - round(t)) < 1e-6 + 1e-12 * abs(t):
            out.append(ANY)      # next to a whole number: truncation depends on the last bit
        else:
            out.append(float(math.trunc(t)))
    return {"adl": out}


def _adl_rule(R, i):
    if i < 1:
        return "hold"
    s, a = R.c[i] - R.c[i - 1], R.t["adl"][i]
    if s != 0 and a > 0:
        return "buy"
    if s != 0 and a < 0:
        return "sell"
    return "hold"


spec("AccumulationDistributionLine", "vol", "close volume high low", ["adl"], 1, _adl, _adl_rule, deg=(0, 1), tol=1e-6)


def _cmf(d, p):
    n = p["period"]
    return {"cmf": rnd([div(a, b) for a, b in zip(rsum(clv_flow(d), n), rsum(d["v"], n))])}


def _cmf_rule(R, i):
    if i < 2:
        return "hold"
    a, b = R.t["cmf"][i - 1], R.t["cmf"][i]
    prev = R.c[i - 2: i]
    if a > b and R.c[i] > max(prev):
        return "sell"
    if a < b and R.c[i] < min(prev):
        return "buy"
    return "hold"


spec("ChaikinMoneyFlow", "vol", "high low close volume", ["cmf"], lambda p: p["period"], _cmf, _cmf_rule, small=per(1, 2, 3), long=per(5, 20), deg=(0, 0))


def _co(d, p):
    a = _adl(d, p)["adl"]
    if any(x is ANY for x in a):
        k = next(i for i, x in enumerate(a) if x is ANY)
        return {"co": rnd([x - y for x, y in zip(ema(a[:k], 3, 3), ema(a[:k], 10, 10))]) + [ANY] * (len(a) - k)}
    return {"co": rnd([x - y for x, y in zip(ema(a, 3, 3), ema(a, 10, 10))])}


def _co_rule(R, i):
    if i + 1 < 90:
        return "hold"
    m = R.memo("m90", lambda: sma(R.c, 90))[i]
    a, b = R.t["co"][i - 1], R.t["co"][i]
    x = (a < b < 0 or a > b > 0) and R.exact(R.c, i, 90)
    if R.lt(m, R.c[i], exact=x) and a < b < 0:
        return "buy"
    if R.lt(R.c[i], m, exact=x) and a > b > 0:
        return "sell"
    return "hold"


spec("ChaikinOscillator", "vol", "high low close volume", ["co"], 10, _co, _co_rule, deg=(0, 1), tol=2e-4)


def _emv(d, p):
    out = [NAN]
    for i in range(1, len(d["h"])):
        h, l, v = d["h"][i], d["l"][i], d["v"][i]
        mid = 0.5 * ((h + l) - (d["h"][i - 1] + d["l"][i - 1]))
        out.append(div(mid, div(v, (h - l) * 10000)))
    return {"emv": rnd(out), "emv_ma": rnd(sma(out, p["period"]))}


spec("EaseOfMovement", "vol", "high low volume", ["emv", "emv_ma"], lambda p: max(2, p["period"]), _emv, crossing("emv_ma", 0.0, "buy", "sell"),
     small=per(1, 2, 3), long=per(5, 14, 40), deg=(2, -1))


def _ko(d, p):
    H, L, C, V = d["h"], d["l"], d["c"], d["v"]
    s = [h + l + c for h, l, c in zip(H, L, C)]
    t = [NAN] + [1.0 if s[i] > s[i - 1] else -1.0 for i in range(1, len(s))]
    dm = [h - l for h, l in zip(H, L)]
    cm = [0.0]
    for i in range(1, len(s)):
        cm.append(cm[i - 1] + dm[i] if t[i] == t[i - 1] else dm[i - 1] + dm[i])
    vf = [mul(mul(v, abs(2 * div(a, b) - 1)), x) * 100 for v, a, b, x in zip(V, dm, cm, t)]
    return {"ko": rnd([a - b for a, b in zip(ema(vf, 34, 34), ema(vf, 55, 55))])}


spec("KlingerOscillator", "vol", "high low close volume", ["ko"], 55, _ko, crossing("ko", 0.0, "sell", "buy"), deg=(0, 1))


def _mfi_rule(R, i):
    if i < 1:
        return "hold"
    a, b = R.t["mfi"][i - 1], R.t["mfi"][i]
    return "buy" if a > b else "sell" if a < b else "hold"


spec("MarketFacilitationIndex", "vol", "high low volume", ["mfi"], 1,
     lambda d, p: {"mfi": rnd([div(h - l, v) for h, l, v in zip(d["h"], d["l"], d["v"])], 10)}, _mfi_rule, deg=(1, -1), tol=2e-10, rounding=10)


def _vi(up):
    def ref(d, p):
        x = [1000.0]
        for i in range(1, len(d["c"])):
            a, b = d["v"][i - 1], d["v"][i]
            if x[-1] is ANY or ((b > a if up else b < a) and d["c"][i - 1] == 0):
                x.append(ANY)           # a percentage of nothing, from here on
            elif (b > a) if up else (b < a):
                x.append(x[-1] + (d["c"][i] - d["c"][i - 1]) * (x[-1] / d["c"][i - 1]))
            else:
                x.append(x[-1])
        return {"pvi" if up else "nvi": rnd(x)}
    return ref


def _nvi_rule(R, i):
    if i + 1 < 255:
        return "hold"
    e = R.memo("e", lambda: ema(R.t["nvi"], 255, 255))
    return "buy" if R.lt(e[i], R.t["nvi"][i], exact=R.const(R.t["nvi"], i)) else "hold"


def _pvi_rule(R, i):
    if i + 1 < 255:
        return "hold"
    x = R.t["pvi"]
    e = R.memo("e", lambda: ema(x, 255, 255))
    u, v = R.const(x, i - 1), R.const(x, i)
    if R.lt(x[i - 1], e[i - 1], exact=u) and R.lt(e[i], x[i], exact=v):
        return "buy"
    if R.lt(e[i - 1], x[i - 1], exact=u) and R.lt(x[i], e[i], exact=v):
        return "sell"
    return "hold"


spec("NegativeVolumeIndex", "vol", "close volume", ["nvi"], 2, _vi(False), _nvi_rule, deg=(0, 0))
spec("PositiveVolumeIndex", "vol", "close volume", ["pvi"], 2, _vi(True), _pvi_rule, deg=(0, 0))


def _obv(d, p):
    x = [0.0]
    for i in range(1, len(d["c"])):
        a, b = d["c"][i - 1], d["c"][i]
        x.append(x[-1] + (d["v"][i] if b > a else -d["v"][i] if b < a else 0.0))
    return {"obv": x}


spec("OnBalanceVolume", "vol", "close volume", ["obv"], 1, _obv, trend3("obv", "sell", "buy"), deg=(0, 1), tol=1e-6)


def _pvt(d, p):
    x = [0.0]
    for i in range(1, len(d["c"])):
        a, b = d["c"][i - 1], d["c"][i]
        x.append(ANY if a == 0 or x[-1] is ANY else x[-1] + (b - a) * (d["v"][i] / a))
    return {"pvt": rnd(x)}


spec("PriceAndVolumeTrend", "vol", "close volume", ["pvt"], 2, _pvt, trend3("pvt", "sell", "buy"), deg=(0, 1))


def _vosc(d, p):
    return {"vosc": rnd([a - b for a, b in zip(sma(d["v"], p["short_period"]), sma(d["v"], p["long_period"]))])}


def _vosc_rule(R, i):
    if i < 2:
        return "hold"
    a, b, c = R.t["vosc"][i - 2: i + 1]
    if 0 < a < b < c:
        return "buy"
    if a > b > c > 0:
        return "sell"
    return "hold"


spec("VolumeOscillator", "vol", "volume", ["vosc"], lambda p: p["long_period"], _vosc, _vosc_rule,
     small=[dict(long_period=a, short_period=b) for a, b in ((2, 1), (3, 1), (3, 2))],
     long=[{}, dict(long_period=20, short_period=5), dict(long_period=9, short_period=8)], deg=(0, 1))


def _vrc(d, p):
    return {"vrc": rnd([100 * div(a - b, b) for a, b in zip(d["v"], shift(d["v"], p["period"]))])}


spec("VolumeRateOfChange", "vol", "volume", ["vrc"], lambda p: p["period"], _vrc, trend3("vrc", "sell", "buy"), small=per(1, 2, 3), long=per(5, 14), deg=(0, 0))


def _wad(d, p):
    H, L, C = d["h"], d["l"], d["c"]
    x = [NAN]
    for i in range(1, len(C)):
        a, b = C[i - 1], C[i]
        x.append(b - min(a, L[i]) if b > a else b - max(a, H[i]) if b < a else 0.0)
    return {"wad": rnd(x)}


def _wad_rule(R, i):
    if i + 1 < 30:
        return "hold"
    c, w = R.c[i - 29: i + 1], [x for x in R.t["wad"][i - 29: i + 1] if x == x]
    last = R.t["wad"][i]
    if min(c) == c[-1] and min(w) != last:
        return "buy"
    if max(c) == c[-1] and max(w) != last:
        return "sell"
    return "hold"


spec("WilliamsAccumulationDistribution", "vol", HLC, ["wad"], 1, _wad, _wad_rule)

FAMILY = {"avg": [s for s in SPECS.values() if s.fam == "avg"],
          "osc": [s for s in SPECS.values() if s.fam == "osc"],
          "vol": [s for s in SPECS.values() if s.fam == "vol"]}


# ================================================================== rule evaluation


def constant_to(xs, memo, i):
    if "k" not in memo:
        first, k = None, len(xs)
        for j, x in enumerate(xs):
            if x == x:
                if first is None:
                    first = x
                elif x != first:
                    k = j
                    break
        memo["k"] = k
    return i < memo["k"]


class _Ctx:
    """Evaluates a signal rule at a row.

    Comparisons against derived (not published) floating point values that are
    closer than the noise are explored both ways; the result is the set of all
    signals the rule can yield.
    """

    def __init__(self, sp, p, inp, ti):
        self.sp, self.p, self.t = sp, p, ti
        for k, v in inp.items():
            setattr(self, k, v)
        self._memo = {}
        self._script, self._used = [], []

    def memo(self, k, f):
        if k not in self._memo:
            self._memo[k] = f()
        return self._memo[k]

    def _choose(self):
        k = len(self._used)
        v = self._script[k] if k < len(self._script) else False
        self._used.append(v)
        return v

    def const(self, xs, i):
        """Everything up to row i is the same value: an exponential average is that value exactly."""
        return constant_to(xs, self.memo(("const", id(xs)), lambda: {}), i)

    def exact(self, xs, i, n):
        """The mean of the last n values is exactly representable, as are all partial sums."""
        w = xs[max(0, i + 1 - n): i + 1]
        if any(abs(x) > 1 << 24 or x * 4096 != int(x * 4096) for x in w if x == x):
            return False
        f = Fraction(int(sum(x * 4096 for x in w)), 4096 * len(w))
        return f.denominator & (f.denominator - 1) == 0

    def lt(self, a, b, tol=1e-9, exact=False):
        """a < b; when they are closer than the noise and not exact, both answers are explored."""
        if a != a or b != b:
            return False
        if exact:
            return a < b
        if abs(a - b) <= tol * max(1.0, abs(a), abs(b)) if tol < 1e-6 else abs(a - b) <= tol:
            return self._choose()
        return a < b

    def signals(self, i):
        res, todo = set(), [[]]
        while todo:
            self._script, self._used = todo.pop(), []
            res.add(self.sp.rule(self, i))
            used = list(self._used)
            for k in range(len(self._script), len(used)):
                todo.append(used[:k] + [True])
        return res


def rule_ctx(sp, p, inp, ti):
    return _Ctx(sp, sp.params(p), inp, ti)
