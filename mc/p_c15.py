"""C15: the constructor's verdict on every combination of parameter values."""
import itertools
from .env import cls, NotEnoughInputData, WrongTypeForInputParameter, WrongValueForInputParameter, pd
from .specs import SPECS, DEFAULTS
from .obs import diff_table
from . import worlds as W

RULE = "outcome of the constructor (accepted / wrong-type error / wrong-value error, the error naming a parameter at fault and its value or type) equals the documented one for every combination"
BOUNDS = {
    "quick": "full cross product of the value pools (around each bound, far from it, and of 8 wrong types) over all parameters incl. fill_missing_values of every indicator; keyword and positional calls; defaults",
    "thorough": "the same with larger pools (all integers -3..40, 14 wrong types)",
}
NAN = float("nan")
MA = ["simple", "exponential", "time_series", "triangular", "variable"]


class Odd:
    def __repr__(self):
        return "Odd()"


WRONG = [2.0, 0.5, -1.0, "3", None, [3], (2,), {}]
WRONG_MORE = [b"3", NAN, 1e9, {3}, 3j, Odd]


def ints(lo, q, extra=()):
    return dict(types=(int,), ok=lambda v: v >= lo, pool=([-10 ** 9, -7, -1, 0, 1, 2, 3, 11, 60, 150, 1000, 10 ** 9] if q else [-10 ** 9, -1000, 60, 100, 150, 200, 1000, 10 ** 9] + list(range(-3, 41))) + list(extra) + WRONG + ([] if q else WRONG_MORE))


def small_ints(lo, q):
    return dict(types=(int,), ok=lambda v: v >= lo, pool=[-60, -1, 0, 1, 2, 3, 60, 5000] + ([] if q else [5, 8]) + [2.0, "3", None] + ([] if q else [[1]]))


def strs(legal, q):
    l = list(legal)
    odd = [l[0].swapcase(), "", " " + l[0], l[0][:-1], l[-1] + "s", "both", 5, None, [l[0]], 1.5, b"simple"]
    return dict(types=(str,), ok=lambda v: v in l, pool=l + odd)


def params(name, q):
    """Ordered documented parameters with their types, values and pools."""
    D = SPECS[name].params({})
    if name == "BollingerBands":
        return [("period", ints(1, q)), ("std_number", dict(types=(int, float), ok=lambda v: v > 0, pool=[2, 1, 0, -1, 0.5, 0.0, -0.5, 1e-9, 2.5, 5, 20, 1e6, -1e6, NAN, "2", None, [2], 2j]))]
    if name == "Envelopes":
        return [("period", ints(1, q)), ("shift", dict(types=(float,), ok=lambda v: 0.0 < v < 1.0, pool=[0.1, 0.5, 0.999999, 1e-9, 0.0, 1.0, -0.1, 1.5, 0.7, -0.5, -1.0, 100.0, NAN, float("inf"), 0, 1, 2, "0.1", None, [0.1]]))]
    if name == "MovingAverage":
        return [("period", ints(1, q)), ("ma_type", strs(MA, q))]
    if name == "Performance":
        return [("mode", strs(["LONG", "SHORT"], q)), ("target", dict(types=(int, float), ok=lambda v: v == v, pool=[0.05, 0, 0.0, 1, -1, -0.05, 2.5, -1e-9, 1e-9, -1.0, 1.0, -1.5, -3, 20, -20, 1e9, -1e9, NAN, "0.05", None, [0.1], 1j]))]
    if name == "StochasticOscillator":
        return [("k_periods", small_ints(1, q)), ("k_slowing_periods", dict(types=(int,), ok=lambda v: v in (1, 3), pool=[-3, 0, 1, 2, 3, 4, 3.0, "1", None])),
                ("d_periods", small_ints(1, q)), ("d_method", dict(types=(str,), ok=lambda v: v in ("simple", "exponential"), pool=["simple", "exponential", "Simple", "triangular", "", None, 1]))]
    if name == "StochasticMomentumIndex":
        return [(k, small_ints(1, q)) for k in ("period", "smoothing_period", "double_smoothing_period")]
    order = {"PriceOscillator": ["long_ma", "short_ma"], "VolumeOscillator": ["long_period", "short_period"], "RangeIndicator": ["range_period", "smoothing_period"],
             "RelativeMomentumIndex": ["period", "momentum_period"], "VolatilityChaikins": ["ema_period", "change_period"]}.get(name)
    if order:
        return [(k, ints(1, q)) for k in order]
    if not D:
        return []
    lo = 2 if name in ("ProjectionBands", "ProjectionOscillator", "TimeSeriesForecast", "ForecastOscillator", "LinearRegressionIndicator") else 1
    return [("period", ints(lo, q, extra=[25, 40] if q else []))]


def conflict(name, v):
    """Parameters that contradict each other although each is legal on its own."""
    if name == "MovingAverage" and v["ma_type"] == "time_series" and v["period"] < 2:
        return ["period", "ma_type"]
    if name == "Performance" and (v["target"] < 0 if v["mode"] == "LONG" else v["target"] > 0):
        return ["target", "mode"]
    for a, b in (("long_ma", "short_ma"), ("long_period", "short_period")):
        if a in v and v[a] <= v[b]:
            return [a, b]
    return []


FILL = dict(types=(bool,), ok=lambda v: True, pool=[True, False, 1, 0, None, "True", 1.0])


def expected(name, ps, v):
    """(set of acceptable outcomes as (kind, parameter))"""
    bad = []
    for k, d in ps:
        x = v[k]
        if not isinstance(x, d["types"]) or (isinstance(x, bool) and d["types"] != (bool,)):
            bad.append(("type", k))
        elif not d["ok"](x):
            bad.append(("value", k))
    core = [b for b in bad if b[1] != "fill_missing_values"]
    if not core:
        bad += [("value", k) for k in conflict(name, v)]
    elif name in ("MovingAverage", "PriceOscillator", "VolumeOscillator", "Performance"):
        # one illegal parameter can make the other one illegal too (bound that depends on it)
        try:
            if conflict(name, v):
                bad += [("value", k) for k in conflict(name, v)]
        except TypeError:
            pass
        if name == "Performance" and ("value", "mode") in bad or ("value", "target") in bad:
            bad += [("value", "target")]
    return bad


def jobs(tier):
    q = tier == "quick"
    out = []
    for name in SPECS:
        ps = params(name, q)
        if len(ps) > 1:
            for i in range(len(ps[0][1]["pool"])):
                out.append(dict(ind=name, first=i, tier=tier))
        else:
            out.append(dict(ind=name, first=None, tier=tier))
        out.append(dict(ind=name, first="defaults", tier=tier))
    out.sort(key=lambda j: j["ind"] != "StochasticOscillator")
    return out


def outcome(f):
    try:
        return "ok", f()
    except WrongTypeForInputParameter as e:
        return "type", e
    except WrongValueForInputParameter as e:
        return "value", e
    except Exception as e:
        return type(e).__name__, e


def one(r, name, ps, v, df, call):
    exp = expected(name, ps, v)
    kind, res = call()
    r.state(name, kind, str(res) if kind != "ok" else tuple(res.getTiData().columns))
    r.execs += 1
    r.transitions += 1
    desc = "%s(%s)" % (name, ", ".join("%s=%r" % (k, v[k]) for k, _ in ps))
    if not exp:
        r.count("accepted")
        r.nontrivial += 1
        need = SPECS[name].minrows({k: x for k, x in v.items() if k != "fill_missing_values"})
        if need > len(df):
            r.count("accepted_but_too_little_data")
            if kind != "NotEnoughInputData":
                r.fail(name + ":refused", "%s on %d rows ends with %s: %s" % (desc, len(df), kind, res))
            return
        if kind != "ok":
            r.fail(name + ":refused", "%s is refused: %s: %s" % (desc, kind, res))
            return
        sp = SPECS[name]
        full = {k: x for k, x in v.items() if k != "fill_missing_values"}
        if list(res.getTiData().columns) != sp.out(full):
            r.fail(name + ":columns", "%s publishes %s" % (desc, list(res.getTiData().columns)))
        return
    r.count("rejected")
    r.compared += 2
    r.nontrivial += 1
    if kind == "ok":
        r.fail(name + ":accepted", "%s is accepted, expected a wrong-%s error for %s" % (desc, exp[0][0], exp[0][1]))
    elif kind not in {k for k, _ in exp}:
        r.fail(name + ":kind", "%s fails with %s (%s), expected a wrong-%s error for %s" % (desc, kind, res, exp[0][0], exp[0][1]))
    else:
        msg = str(res)
        if not any(k2 == kind and p in msg and str(v[p] if kind == "value" else type(v[p])) in msg for k2, p in exp):
            r.fail(name + ":message", "%s: the wrong-%s error does not name the parameter at fault and its %s: %s" % (desc, kind, kind, msg))


def run_job(job, r):
    name = job["ind"]
    q = job["tier"] == "quick"
    sp = SPECS[name]
    C = cls(name)
    ps = params(name, q)
    if job["first"] == "defaults":
        df = W.frame(W.long("ordinary")[:230], floats=True)
        for i in (3, 120, 121, 228):      # gaps: filling is on unless told otherwise
            df.iloc[i, :] = float("nan")
        full = dict(sp.params({}))
        a = C(df)
        b = C(df, **full, fill_missing_values=True)
        c = C(df, *[full[k] for k, _ in ps], True)
        for x, y, what in ((a, b, "omitted parameters and the documented defaults"), (a, c, "omitted parameters and the documented defaults given by position")):
            d = diff_table(x.getTiData(), y.getTiData())
            r.execs += 1
            r.states += 1
            r.transitions += 1
            r.compared += 1
            if d or x.getTiSignal() != y.getTiSignal():
                r.fail(name + ":defaults", "%s: %s differ: %s" % (name, what, d))
        try:
            C(input_data=df)
        except TypeError as e:
            r.fail(name + ":keyword", "%s: input_data cannot be given by name: %s" % (name, e))
        return
    need = max([sp.minrows({**sp.params({}), **{}})] + [90])
    df = W.frame(W.long("ordinary")[:need + 20], floats=True)
    pools = [d["pool"] for _, d in ps]
    if job["first"] is not None:
        pools[0] = [pools[0][job["first"]]]
    names = [k for k, _ in ps]
    allp = ps + [("fill_missing_values", FILL)]
    for combo in itertools.product(*pools):
        v = dict(zip(names, combo))
        legal = not expected(name, ps, v)
        for f in (FILL["pool"] if legal or len(ps) < 2 else [True, None]):
            w = dict(v, fill_missing_values=f)
            one(r, name, allp, w, df, lambda: outcome(lambda: C(df, **w)))
            if legal and f is True:
                one(r, name, allp, w, df, lambda: outcome(lambda: C(df, *combo, True)))
            if len(r.viol) > 6:
                return
        r.sample(indicator=name, parameters={k: repr(x) for k, x in v.items()}, verdict="legal" if legal else "rejected")


def finish(tier, tot):
    return [m for m in ("accepted", "rejected") if not tot.counts.get(m, 0) > 300]
