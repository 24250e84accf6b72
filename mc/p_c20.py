"""C20: verdict and result of a simulation for every perturbation of its arguments."""
import itertools
from .env import pd, np, no_plot, TradingSimulation, NotValidInputDataForSimulation, WrongTypeForInputParameter, WrongValueForInputParameter
from .specs import SPECS
from .tables import build, label
from .obs import diff_sim, simulate, Frozen
from .p_c02 import configs
from . import worlds as W

RULE = "the outcome of the simulation call is the documented error, raised before any signal is asked for, or equals the simulation of the sorted, filled float close prices with the same limit and factor"
BOUNDS = {
    "quick": "full cross product of 56 forms of the close table x 18 limits x 17 factors on 2 indicators (and the simulation class alone); every form of the close table x 4 limit/factor pairs on every indicator",
    "thorough": "full cross product on 6 indicators; every form x all limits and all factors on every indicator",
}
NAN, INF = float("nan"), float("inf")
OKCLOSE = ["same", "reversed", "shuffled", "upper", "mixedcase", "ints", "int32", "uint8", "float32", "extra", "extratext", "extralower", "fullframe", "gapfirst", "gaplast", "gapmiddle", "gapruns", "gapextra", "unsortedgaps",
           "named", "nofreq", "othervalues", "oddlabels", "subclass", "seconds", "nullable", "nullgap", "sparse"]
BADCLOSE = ["none", "list", "series", "array", "dict", "str", "noclose", "renamed", "text", "datescol", "category", "empty", "nocols", "dropfirst", "droplast", "dropmiddle", "addlate", "addearly", "addbetween", "duplicated",
            "shifted", "swapped", "stuttered", "repeated", "halved", "allfirst", "manydup", "rangeindex", "strindex", "periodindex", "utc", "othertime", "objectindex"]
LIMITS = [("ok", None), ("ok", 100.0), ("ok", 30), ("ok", 0.001), ("ok", 1), ("ok", INF), ("ok", 1e12), ("ok", 1e-300), ("value", -1e-300), ("value", -1e-9), ("value", 0), ("value", 0.0), ("value", -1), ("value", -0.5), ("value", NAN), ("value", -INF),
          ("type", "100"), ("type", [100.0]), ("type", (1,)), ("type", {}), ("type", 1j)]
FACTORS = [("ok", 1.5), ("ok", 1), ("ok", 1.0), ("ok", 2), ("ok", 3.25), ("ok", 1.0 + 2.0 ** -50), ("value", 1.0 - 2.0 ** -50), ("value", 0.999999), ("value", 0), ("value", 0.5), ("value", -1), ("value", -2.5), ("value", NAN), ("value", -INF),
           ("type", None), ("type", "1.5"), ("type", [1.5]), ("type", {}), ("type", 2j)]


def truth(close, how):
    """The sorted, filled prices the simulation must use."""
    c = close.astype("float64").copy()
    n = len(c)
    g = {"gapfirst": [0], "gaplast": [n - 1], "gapmiddle": [n // 2], "gapruns": [0, 1, n // 2, n // 2 + 1, n - 2, n - 1], "gapextra": [2], "nullgap": [0, 3, n - 1], "unsortedgaps": [0, 3, n - 1]}.get(how, [])
    v = c.tolist()
    if how == "othervalues":
        v = [40.0 - x / 2 if i % 3 else x * 2 for i, x in enumerate(v)]
    for i in g:
        v[i] = NAN
    f = list(v)
    for i in range(1, n):
        if f[i] != f[i]:
            f[i] = f[i - 1]
    for i in range(n - 2, -1, -1):
        if f[i] != f[i]:
            f[i] = f[i + 1]
    return v, pd.DataFrame({"close": f}, index=c.index)


def close_table(df, how):
    """(table given to the simulation, table it must be equivalent to or None when it must be refused)"""
    close = df["close"]
    n = len(close)
    v, t = truth(close, how)
    d = pd.DataFrame({"close": v}, index=close.index)
    if how in OKCLOSE:
        if how == "reversed":
            d = d.iloc[::-1]
        elif how in ("shuffled", "unsortedgaps"):
            d = d.iloc[[i for i in range(1, n, 2)] + [i for i in range(0, n, 2)][::-1]]
        elif how == "upper":
            d.columns = ["CLOSE"]
        elif how == "mixedcase":
            d.columns = ["Close"]
        elif how in ("ints", "int32", "uint8", "float32"):
            d = d.astype({"ints": "int64"}.get(how, how))
        elif how == "extra":
            d["Adj Close"] = 1.5
            d.insert(0, "open", 7)
        elif how == "extratext":
            d.insert(0, "Name", "x")
            d["when"] = pd.date_range("1990-01-01", periods=n)
        elif how == "extralower":
            d["X"] = 1
            d["x"] = "y"
            d["closed"] = 3
        elif how == "fullframe":
            d = df.copy()
        elif how == "gapextra":
            d["volume"] = [NAN] * n
        elif how == "named":
            d.index.name = "Date"
            d.columns.name = "field"
        elif how == "nofreq":
            d.index = pd.DatetimeIndex(list(d.index))
        elif how == "subclass":
            class Sub(pd.DataFrame):
                pass
            d = Sub(d)
        elif how == "seconds":
            d.index = d.index.as_unit("s")
        elif how in ("nullable", "nullgap", "sparse"):
            d = d.astype("Sparse[float64]" if how == "sparse" else "Float64")
        elif how == "oddlabels":
            d[7] = 1
            d[None] = "z"
        return d, t
    if how == "none":
        return None, None
    if how == "list":
        return v, None
    if how == "series":
        return close.copy(), None
    if how == "array":
        return close.to_numpy().copy(), None
    if how == "dict":
        return {"close": v}, None
    if how == "str":
        return "close", None
    if how == "noclose":
        d.columns = ["price"]
    elif how == "renamed":
        d.columns = ["close "]
    elif how == "text":
        d["close"] = [str(x) for x in v]
    elif how == "datescol":
        d["close"] = pd.date_range("1990-01-01", periods=n)
    elif how == "category":
        d["close"] = pd.Categorical(["a"] * n)
    elif how == "empty":
        d = d.iloc[:0]
    elif how == "nocols":
        d = d[[]]
    elif how == "dropfirst":
        d = d.iloc[1:]
    elif how == "droplast":
        d = d.iloc[:-1]
    elif how == "dropmiddle":
        d = d.drop(d.index[n // 2])
    elif how in ("addlate", "addearly", "addbetween"):
        k = {"addlate": d.index[-1] + pd.Timedelta(days=1), "addearly": d.index[0] - pd.Timedelta(days=1), "addbetween": d.index[n // 2] + pd.Timedelta(hours=6)}[how]
        d = pd.concat([d, pd.DataFrame({"close": [9.0]}, index=[k])])
    elif how == "duplicated":
        d = pd.concat([d, d.iloc[[n // 2]]])
    elif how == "shifted":
        d.index = d.index + pd.Timedelta(days=1)
    elif how == "swapped":
        ix = list(d.index)
        ix[n // 2] = ix[n // 2] + pd.Timedelta(minutes=1)
        d.index = pd.DatetimeIndex(ix)
    elif how in ("stuttered", "repeated", "halved", "allfirst", "manydup"):      # right length, some dates given twice in place of others
        ix = list(d.index)
        if how == "stuttered":
            ix[n // 2] = ix[n // 2 - 1]
        elif how == "repeated":
            ix[-1] = ix[0]
        elif how == "halved":
            ix[1::2] = ix[0:-1:2] if n % 2 == 0 else ix[0:-1:2]
        elif how == "allfirst":
            ix = [ix[0]] * n
        else:
            ix[0], ix[-1] = ix[1], ix[-2]
        d.index = pd.DatetimeIndex(ix)
    elif how == "rangeindex":
        d = d.reset_index(drop=True)
    elif how == "strindex":
        d.index = [str(x) for x in d.index]
    elif how == "objectindex":
        d.index = pd.Index([x.date() for x in d.index], dtype=object)
    elif how == "periodindex":
        d.index = d.index.to_period("D")
    elif how == "utc":
        d.index = d.index.tz_localize("UTC")
    elif how == "othertime":
        d.index = d.index + pd.Timedelta(hours=12)
    return d, None


FULL2 = ["MovingAverage", "StochasticOscillator"]
FULL6 = FULL2 + ["OnBalanceVolume", "DetrendedPriceOscillator", "ParabolicSAR", "MassIndex"]
PAIRS = [(("ok", None), ("ok", 1.5)), (("ok", 30), ("ok", 2)), (("value", -1), ("ok", 1.5)), (("ok", 100.0), ("type", "1.5"))]


def jobs(tier):
    out = []
    q = tier == "quick"
    for n in FULL2 if q else FULL6:
        for h in OKCLOSE + BADCLOSE:
            out.append(dict(kind="full", ind=n, close=h))
    for n in SPECS:
        out.append(dict(kind="each", ind=n, deep=not q))
    for h in [h for h in OKCLOSE + BADCLOSE if h not in ("ints", "int32", "uint8", "float32")]:      # years of prices
        out.append(dict(kind="far", ind="WeightedClose", close=h, rows=1300 if q else 2500))
    out.append(dict(kind="class"))
    return out


KIND = {WrongTypeForInputParameter: "type", WrongValueForInputParameter: "value", NotValidInputDataForSimulation: "data"}


def attempt(f):
    try:
        return "ok", f()
    except Exception as e:
        return KIND.get(type(e), type(e).__name__), e


def judge(r, sp, p, ind, df, how, lim, fac, base):
    c, t = close_table(df, how)
    exp = {k for k, _ in (lim, fac) if k != "ok"} | ({"data"} if t is None else set())
    calls = []
    orig = ind.getTiSignal
    snap = Frozen(c) if isinstance(c, pd.DataFrame) and c.shape[1] else None

    def counting(*a, **k):
        calls.append(1)
        return type(ind).getTiSignal(ind, *a, **k)
    kind, res = None, None
    if exp:
        ind.__dict__["getTiSignal"] = counting
    try:
        kind, res = attempt(lambda: simulate(ind, c, max_exposure=lim[1], short_exposure_factor=fac[1]))
    finally:
        ind.__dict__.pop("getTiSignal", None)
    r.execs += 1
    r.states += 1
    r.compared += 1
    what = "%s: simulation with close '%s', limit %r, factor %r" % (label(sp, p), how, lim[1], fac[1])
    if exp:
        r.count("refused")
        r.transitions += 1
        r.compared += 1
        if kind not in exp:
            r.fail(sp.name + ":verdict", "%s gives %s (%s), expected %s" % (what, kind, str(res)[:120] if kind != "ok" else "a result", "/".join(sorted(exp))))
            return False
        if calls:
            r.fail(sp.name + ":late", "%s is refused only after %d signals were simulated" % (what, len(calls)))
            return False
        return True
    r.count("accepted")
    if kind != "ok":
        r.fail(sp.name + ":refused", "%s is refused: %s: %s" % (what, kind, str(res)[:150]))
        return False
    key = (how if how in ("othervalues",) or "gap" in how else "same", lim[1], fac[1])
    if key not in base:
        base[key] = simulate(build(sp, p, df), t, max_exposure=None if lim[1] == INF else lim[1], short_exposure_factor=float(fac[1]))
        r.execs += 1
    d = diff_sim(res, base[key])
    r.transitions += len(df)
    r.compared += res[0].size + len(res[1])
    r.nontrivial += 1
    if d:
        r.fail(sp.name + ":result", "%s differs from the simulation of the sorted, filled prices: %s" % (what, d))
        return False
    if snap and snap.diff():
        r.fail(sp.name + ":caller", "%s: %s" % (what, snap.diff()))
        return False
    return True


def world(sp, p, extra=6):
    n = max(sp.minrows(sp.params(p)), 3) + extra
    return W.frame([tuple(float(int(x * 2)) for x in b[:4]) + (b[4],) for b in W.long("walk6")[200:200 + n]], floats=True)


def run_job(job, r):
    if job["kind"] == "class":
        run_class(r)
        return
    sp = SPECS[job["ind"]]
    p = configs(sp)[0] if job["kind"] == "each" else sp.small[min(1, len(sp.small) - 1)]
    df = world(sp, p) if job["kind"] != "far" else W.frame(W.long("ordinary6")[:job["rows"]], floats=True)
    ind = build(sp, p, df)
    base = {}
    if job["kind"] == "far":
        judge(r, sp, p, ind, df, job["close"], ("ok", None), ("ok", 1.5), base)
        return
    if job["kind"] == "full":
        for lim, fac in itertools.product(LIMITS, FACTORS):
            if not judge(r, sp, p, ind, df, job["close"], lim, fac, base):
                return
        r.sample(indicator=label(sp, p), close=job["close"], pairs=len(LIMITS) * len(FACTORS))
        return
    pairs = PAIRS if not job["deep"] else [(a, FACTORS[0]) for a in LIMITS] + [(LIMITS[1], b) for b in FACTORS]
    lively = W.frame(W.lively(sp.name, p), floats=True)
    other, obase = build(sp, p, lively), {}
    for how in OKCLOSE + BADCLOSE:
        if how not in ("ints", "int32", "uint8", "float32"):
            if not judge(r, sp, p, other, lively, how, *PAIRS[job["deep"] and 1], obase):
                return
        for lim, fac in pairs if how in ("same", "reversed", "none", "dropmiddle") or job["deep"] else pairs[:2]:
            if not judge(r, sp, p, ind, df, how, lim, fac, base):
                return


def run_class(r):
    df = world(SPECS["MovingAverage"], dict(period=2))
    sigs = [("buy", -1), ("hold", 0), ("sell", 1), ("buy", -1), ("sell", 1), ("sell", 1), ("buy", -1), ("hold", 0), ("buy", -1)]

    def run(index, close, lim, fac):
        s = TradingSimulation(input_data_index=index, close_values=close, max_exposure=lim, short_exposure_factor=fac)
        for i in range(len(df)):
            s.runSimulationRound(i_index=i, signal=sigs[i % 9])
        return s.closeSimulation()
    base = {}
    for how in OKCLOSE + BADCLOSE:
        for lim in LIMITS[::4] + LIMITS[1:2]:
            for fac in FACTORS[::3]:
                c, t = close_table(df, how)
                exp = {k for k, _ in (lim, fac) if k != "ok"} | ({"data"} if t is None else set())
                for ixn, ix in (("ascending", df.index), ("descending", df.index[::-1])):
                    kind, res = attempt(lambda: run(ix, c, lim[1], fac[1]))
                    r.execs += 1
                    r.states += 1
                    r.transitions += len(df)
                    r.compared += 1
                    what = "simulation class with %s index, close '%s', limit %r, factor %r" % (ixn, how, lim[1], fac[1])
                    if exp:
                        if kind not in exp:
                            r.fail("class:verdict", "%s gives %s (%s), expected %s" % (what, kind, str(res)[:120] if kind != "ok" else "a result", "/".join(sorted(exp))))
                            return
                        continue
                    if kind != "ok":
                        r.fail("class:refused", "%s is refused: %s: %s" % (what, kind, res))
                        return
                    key = (how if how == "othervalues" or "gap" in how else "same", lim[1], fac[1])
                    if key not in base:
                        base[key] = run(df.index, t, None if lim[1] == INF else lim[1], float(fac[1]))
                    d = diff_sim(res, base[key])
                    r.compared += res[0].size + len(res[1])
                    r.nontrivial += 1
                    if d:
                        r.fail("class:result", "%s differs from the simulation of the sorted, filled prices: %s" % (what, d))
                        return
    good = close_table(df, "same")[0]
    for bad in (None, "x", list(df.index), pd.RangeIndex(len(df)), df.index.to_period("D"), pd.Index([str(x) for x in df.index]), df, 5, pd.to_timedelta(range(len(df)), unit="D")):
        kind, res = attempt(lambda: run(bad, good, None, 1.5))
        r.states += 1
        r.execs += 1
        r.compared += 1
        if kind != "data":
            r.fail("class:index", "simulation class with the index %r gives %s (%s) instead of the simulation-data error" % (type(bad).__name__, kind, str(res)[:100]))
            return


def finish(tier, tot):
    return [m for m in ("accepted", "refused") if tot.counts.get(m, 0) < 1500]
