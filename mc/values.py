"""C07-C09: every published value equals the definition (small-scope products and De Bruijn series)."""
import itertools
from .specs import FAMILY, SPECS
from .tables import compare_values, label
from . import worlds as W

SMALL = {"price": [W.UP, W.DOWN, W.FLAT, W.GAP], "vol": [W.UP, W.DOWN, W.FLAT, W.ZERO]}
LONGS = ["bars4", "bars5", "walk6", "walk2", "geo", "regimes", "ordinary", "spikes"]
SCALED = ["walk2@p8v6", "walk2@p-6v-4", "regimes@p12v12", "bars4@p-9v0", "bars5@p5v-8", "walk6@grow", "ordinary@fall", "bars5@p20v30"]
SWEEP = [1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 19, 21, 25, 26, 27, 33, 50, 64, 99, 100, 101, 128, 200, 252]
PREFIXES = ["mixed", "bars", "up", "osc"]
RULE = "cell-wise comparison of the published table with the reference definition (mc/specs.py)"
BOUNDS = {
    "quick": "all bar sequences of length <= 4 over 4 bars from the first row (small periods) or after 4 base histories (fixed windows: length <= 2); "
             "De Bruijn words (every window of 4 bars over 5, 5 over 4, 6 steps over 3) and 5 regime series for all small and large parameter sets",
    "thorough": "sequences of length <= 6 over 4 bars and <= 4 over 8 bars; after base histories length <= 4; all series, all parameter sets",
}


def fixed(sp):
    return sp.minrows(sp.params(sp.small[0])) > 8


REGRESSION = ("ProjectionBands", "ProjectionOscillator", "TimeSeriesForecast", "ForecastOscillator", "LinearRegressionIndicator", "LinearRegressionSlope")


def sweep(sp, tier):
    """Every parameter over a wide range: single parameters over SWEEP, several over grids."""
    from .specs import DEFAULTS
    d = DEFAULTS.get(sp.name)
    if not d or sp.name == "Performance":
        return []
    lo = 2 if sp.name in REGRESSION else 1
    ns = [n for n in SWEEP if n >= lo]
    g = (1, 2, 4, 7, 12, 31) if tier == "quick" else (1, 2, 3, 4, 5, 7, 9, 12, 20, 31, 64)
    if set(d) == {"period"}:
        return [dict(period=n) for n in ns]
    if sp.name == "MovingAverage":
        return [dict(period=n, ma_type=k) for k in ("simple", "exponential", "triangular", "time_series", "variable") for n in ns if n > 1 or k != "time_series"]
    if sp.name == "BollingerBands":
        return [dict(period=n, std_number=(0.25, 1, 2.5, 7)[k % 4]) for k, n in enumerate(ns)] + [dict(period=n, std_number=k) for n in (4, 20) for k in (0.001, 1, 2, 3, 3.7, 50)]
    if sp.name == "Envelopes":
        return [dict(period=n, shift=(0.25, 0.01, 0.6, 0.001)[k % 4]) for k, n in enumerate(ns)] + [dict(period=4, shift=k) for k in (0.0001, 0.3, 0.99, 0.5)]
    if sp.name in ("PriceOscillator", "VolumeOscillator"):
        a, b = ("long_ma", "short_ma") if sp.name[0] == "P" else ("long_period", "short_period")
        return [{a: x, b: y} for x in g + (60,) for y in g if y < x]
    if sp.name == "StochasticOscillator":
        h = (1, 2, 5, 14)
        return [dict(k_periods=a, k_slowing_periods=b, d_periods=c, d_method=m) for a in h for b in (1, 3) for c in (1, 2, 8) for m in ("simple", "exponential")]
    keys = sorted(d)
    g = g if len(keys) < 3 else (1, 2, 5, 13)
    return [dict(zip(keys, v)) for v in itertools.product(g, repeat=len(keys))]


def jobs_for(fam, tier):
    out = []
    for sp in FAMILY[fam]:
        cfgs = list(sp.small)
        for p in sp.long:
            if p not in cfgs:
                cfgs.append(p)
        out.append(dict(kind="long", ind=sp.name, p=sp.long[0], series="ordinary6"))
        for p in cfgs if tier != "quick" else cfgs[-2:] + cfgs[:1]:
            out.append(dict(kind="long", ind=sp.name, p=p, series="walk2@p2v0", dtype="int64"))
        sw = [p for p in sweep(sp, tier) if p not in cfgs]
        for k in range(0, len(sw), 6):
            out.append(dict(kind="sweep", ind=sp.name, ps=sw[k: k + 6], series=("walk2", "ordinary") if tier == "quick" else ("walk2", "ordinary", "bars4", "regimes", "walk6")))
        for k, p in enumerate(cfgs):
            for j, s in enumerate(SCALED):
                if tier != "quick" or (j + k) % 2 == 0 or len(cfgs) < 3:
                    out.append(dict(kind="long", ind=sp.name, p=p, series=s))
        for p in cfgs if tier != "quick" or len(cfgs) < 4 else cfgs[:1] + cfgs[-2:]:
            for s in ("plateau", "below", "flatstart"):
                out.append(dict(kind="long", ind=sp.name, p=p, series=s))
        for p in cfgs:
            for s in LONGS:
                out.append(dict(kind="long", ind=sp.name, p=p, series=s))
        a = "vol" if "volume" in sp.cols else "price"
        for p in sp.small:
            n = sp.minrows(sp.params(p))
            if n > 8:
                for pre in PREFIXES:
                    for extra in ((0, 20) if tier == "quick" else (0, 1, 13, 20, 33)):
                        out.append(dict(kind="small", ind=sp.name, p=p, alpha=a, prefix=pre, plen=n - 1 + extra, L=2 if tier == "quick" else 4))
            elif tier == "quick":
                out.append(dict(kind="small", ind=sp.name, p=p, alpha=a, prefix="flat", plen=0, L=4))
            else:
                out.append(dict(kind="small", ind=sp.name, p=p, alpha=a, prefix="flat", plen=0, L=6))
                out.append(dict(kind="small", ind=sp.name, p=p, alpha="all", prefix="flat", plen=0, L=4))
    out.sort(key=lambda j: (j["kind"] != "small", -j.get("L", 0)))
    return out


def run_job(job, r):
    sp = SPECS[job["ind"]]
    if job["kind"] == "sweep":
        for k, p in enumerate(job["ps"]):
            need = max(sp.minrows(sp.params(p)), sp.drop(sp.params(p)))
            for s in job["series"]:
                bars = W.long(s) if need <= 100 else W.long(s) * 2
                if not compare_values(sp, p, bars[3 * k: 3 * k + need * 2 + 150], r, "parameter sweep, series " + s):
                    return
                # exactly the least amount of data, and one or two bars more
                for extra in (0, 1, 2):
                    if not compare_values(sp, p, bars[17: 17 + need + extra], r, "%d rows, needs %d, series %s" % (need + extra, need, s), new=1):
                        return
        r.count("parameter_sets", len(job["ps"]))
        return
    p = job["p"]
    if job["kind"] == "long":
        bars = W.long(job["series"])
        compare_values(sp, p, bars, r, "series " + job["series"] + (" of " + job["dtype"] if "dtype" in job else ""), dtype=job.get("dtype"))
        r.sample(indicator=label(sp, p), series=job["series"], rows=len(bars))
        return
    pre = W.base_prefix(job["prefix"], job["plen"])
    alpha = W.BARS if job["alpha"] == "all" else SMALL[job["alpha"]]
    n = sp.minrows(sp.params(p))
    bad = 0
    for L in range(1, job["L"] + 1):
        if len(pre) + L < n:
            continue
        for seq in W.products(alpha, L):
            if not compare_values(sp, p, pre + list(seq), r, "prefix %s/%d + %d bars" % (job["prefix"], job["plen"], L), new=1):
                bad += 1
                if bad > 3:
                    return
