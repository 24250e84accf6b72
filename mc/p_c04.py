"""C04: caller frames are never modified; later changes to them or to returned tables have no effect."""
import itertools
from .env import pd, np, no_plot, validateInputData, fillMissingValues, TradingSimulation
from .obs import Frozen, diff_table, diff_sim
from .specs import SPECS
from .tables import label
from .env import cls
from .p_c02 import configs
from . import worlds as W

RULE = "deep snapshots of every frame the caller passed equal the frames after every call; after in-place changes of passed or returned tables every answer equals the answer before"
BOUNDS = {
    "quick": "every indicator x 48 input forms (order x label case x extra columns x gaps x integer storage, fill on/off) x constructor + 6 queries + 3 simulations; 9 rejected constructor forms and 8 rejected "
             "simulations; 7 kinds of later in-place change after every call",
    "thorough": "all forms x two parameter sets x longer data",
}
CHUNK = 1
CASES = {"lower": str.lower, "upper": str.upper, "mixed": lambda s: s[:1].upper() + s[1:-1] + s[-1:].upper()}


def forms():
    out = []
    for order in ("sorted", "reversed", "shuffled"):
        for case in ("lower", "mixed"):
            for extra in (False, True):
                for gaps in ("none", "some"):
                    for store in ("float", "int"):
                        if gaps == "some" and store == "int":
                            continue
                        out.append(dict(order=order, case=case, extra=extra, gaps=gaps, store=store))
    out.append(dict(order="shuffled", case="upper", extra=True, gaps="some", store="float"))
    out.append(dict(order="sorted", case="upper", extra=False, gaps="none", store="int32"))
    return out


def scale(bars):
    return [(o * 4, h * 4, l * 4, c * 4, v) for o, h, l, c, v in bars]


def make(bars, cols, f):
    df = W.frame(scale(bars), cols=cols, floats=True)
    if f["gaps"] == "some":
        for k, c in enumerate(cols):
            df.iloc[[0, len(df) // 2, len(df) - 1][k % 3], k] = np.nan
    if f["store"] != "float":
        df = df.astype("int64" if f["store"] == "int" else f["store"])
    if f["extra"]:
        df.insert(1, "Adj Close", np.arange(len(df)) * 1.5)
        df["note"] = ["n%d" % i for i in range(len(df))]
        df.iloc[0, df.columns.get_loc("note")] = None
    df.columns = [CASES[f["case"]](str(c)) for c in df.columns]
    if f["order"] == "reversed":
        df = df.iloc[::-1].copy()
        df.columns.name, df.index.name, df.attrs["source"] = "field", "day", "exchange"
    elif f["order"] == "shuffled":
        n = len(df)
        df = df.iloc[sorted(range(n), key=lambda i: (i * 7 + 3) % n if n % 7 else (i * 5 + 3) % n)].copy()
    return df


def jobs(tier):
    out = []
    for sp in SPECS.values():
        for p in configs(sp)[: 1 if tier == "quick" else 3]:
            out.append(dict(kind="frames", ind=sp.name, p=p, extra=3 if tier == "quick" else 30, every=1))
            out.append(dict(kind="isolation", ind=sp.name, p=p, extra=4 if tier == "quick" else 20))
            out.append(dict(kind="rejected", ind=sp.name, p=p))
    for nm, n in (("WeightedClose", 300), ("OnBalanceVolume", 1200), ("MovingAverage", 280)):
        out.append(dict(kind="isolation", ind=nm, p=configs(SPECS[nm])[0], extra=n))
    out.append(dict(kind="utils"))
    out.sort(key=lambda j: -(SPECS[j["ind"]].minrows(SPECS[j["ind"]].params(j["p"])) if "ind" in j else 0))
    return out


def bars_for(sp, p, extra):
    n = max(sp.minrows(sp.params(p)), 3) + extra
    return (W.long("bars4")[37:] + W.long("bars5"))[:n]


def close_of(df):
    i = [str(c).lower() for c in df.columns].index("close") if "close" in [str(c).lower() for c in df.columns] else None
    if i is None:
        return pd.DataFrame({"Close": np.arange(len(df)) % 5 + 10.0}, index=df.index)
    return df.iloc[:, [i]].copy()


def run_job(job, r):
    if job["kind"] == "utils":
        return utils(job, r)
    sp, p = SPECS[job["ind"]], job["p"]
    if job["kind"] == "frames":
        return frames(job, sp, p, r)
    if job["kind"] == "rejected":
        return rejected(job, sp, p, r)
    return isolation(job, sp, p, r)


def call(f):
    try:
        with no_plot():
            return "ok", f()
    except Exception as e:
        return type(e).__name__, None


def frames(job, sp, p, r):
    bars = bars_for(sp, p, job["extra"])
    fs = forms()
    k0 = list(SPECS).index(sp.name)
    for k, f in enumerate(fs):
        if (k + k0) % job["every"]:
            continue
        for fill in (True, False) if f["gaps"] == "some" else (True,):
            df = make(bars, sp.cols + [c for c in ("close",) if c not in sp.cols], f)
            close = close_of(df)
            snaps = {"input_data": Frozen(df), "close_values": Frozen(close)}

            def ok(what):
                r.transitions += 1
                for nm, s in snaps.items():
                    r.compared += 1
                    r.nontrivial += 1
                    d = s.diff()
                    if d:
                        r.fail("%s:%s:%s" % (sp.name, what.split("(")[0], nm), "%s: %s modified the caller's %s: %s (form %s)" % (label(sp, p), what, nm, d, f))
                        return False
                return True
            st, ind = call(lambda: cls(sp.name)(df, fill_missing_values=fill, **p))
            r.execs += 1
            r.states += 1
            if not ok("constructor"):
                return
            if ind is None:
                continue
            date = df.index[1]
            for what, g in (("getTiData", ind.getTiData), ("getTiValue", ind.getTiValue), ("getTiValue(date)", lambda: ind.getTiValue(date)),
                            ("getTiSignal", ind.getTiSignal), ("getTiGraph", ind.getTiGraph)) + (
                    () if (k % 4 and job["every"] > 1) else (("getTiSimulation", lambda: ind.getTiSimulation(close)),
                           ("getTiSimulation(own input)", lambda: ind.getTiSimulation(df, max_exposure=100.0)))):
                call(g)
                if not ok(what):
                    return
            r.sample(indicator=label(sp, p), form=f)


def rejected(job, sp, p, r):
    bars = bars_for(sp, p, 3)
    cols = sp.cols + [c for c in ("close",) if c not in sp.cols]
    f = dict(order="shuffled", case="mixed", extra=True, gaps="some", store="float")

    def chk(snap, what, nm):
        r.transitions += 1
        r.states += 1
        r.compared += 1
        r.nontrivial += 1
        d = snap.diff()
        if d:
            r.fail("%s:rejected:%s" % (sp.name, what), "%s: rejected call (%s) modified the caller's %s: %s" % (label(sp, p), what, nm, d))
            return False
        return True
    base = make(bars, cols, f)
    bad = {}
    bad["missing column"] = base.drop(columns=[c for c in base.columns if c.lower() == sp.cols[0]])
    x = base.copy()
    x[[c for c in x.columns if c.lower() == sp.cols[-1]][0]] = ["x"] * len(x)
    bad["text column"] = x
    bad["integer index"] = base.reset_index(drop=True)
    bad["text index"] = base.set_axis([str(i) for i in base.index], axis=0)
    bad["empty"] = base.iloc[:0]
    bad["no rows for the period"] = base.iloc[: max(1, sp.minrows(sp.params(p)) - 1)].copy()
    bad["series"] = base.iloc[:, 0]
    for what, b in bad.items():
        if isinstance(b, pd.Series):
            s = Frozen(b.to_frame())
            s.obj = b.to_frame()
        else:
            s = Frozen(b)
        call(lambda: cls(sp.name)(b, **p))
        r.execs += 1
        if isinstance(b, pd.Series):
            s.obj = b.to_frame()
        if not chk(s, what, "input_data"):
            return
    for what, kw in (("bad fill flag", dict(fill_missing_values="x", **p)), ("bad parameter", dict(p, **({next(iter(p)): -7} if p else {"fill_missing_values": 1})))):
        s = Frozen(base)
        call(lambda: cls(sp.name)(base, **kw))
        r.execs += 1
        if not chk(s, what, "input_data"):
            return
    st, ind = call(lambda: cls(sp.name)(base, **p))
    if ind is None:
        return
    close = close_of(base)
    sims = {"short": close.iloc[:-1].copy(), "shifted": close.set_axis(close.index + pd.Timedelta("1h"), axis=0),
            "no close": close.rename(columns={close.columns[0]: "Price"}), "text": close.astype(object).assign(**{close.columns[0]: "a"}),
            "no dates": close.reset_index(drop=True), "empty": close.iloc[:0]}
    for what, c in sims.items():
        a, b = Frozen(base), Frozen(c)
        call(lambda: ind.getTiSimulation(c))
        r.execs += 1
        if not chk(a, "simulation " + what, "input_data") or not chk(b, "simulation " + what, "close_values"):
            return
    for kw in (dict(max_exposure=-1), dict(short_exposure_factor="x"), dict(max_exposure="1")):
        a, b = Frozen(base), Frozen(close)
        call(lambda: ind.getTiSimulation(close, **kw))
        r.execs += 1
        if not chk(a, "simulation %s" % kw, "input_data") or not chk(b, "simulation %s" % kw, "close_values"):
            return


def spoil(df, how):
    """In-place changes a caller can make to a table it owns."""
    num = [k for k in range(df.shape[1]) if df.dtypes.iloc[k].kind in "fiu"]
    if how == "values":
        for k in num:
            a = df.iloc[:, k].values
            try:
                a[:] = -5
            except ValueError:
                pass
        try:
            df.values[:] = -7
        except (ValueError, TypeError):
            pass
    elif how == "cells":
        for k in num:
            df.iloc[:, k] = 3
    elif how == "nan":
        for k in num:
            df.iloc[0, k] = 1e6
            df.iloc[len(df) - 1, k] = 1e-3
    elif how == "labels":
        df.columns = ["c%d" % k for k in range(df.shape[1])]
    elif how == "rows":
        df.drop(index=df.index[-2:], inplace=True)
    elif how == "sort":
        df.sort_index(ascending=False, inplace=True)
    elif how == "columns":
        for c in list(df.columns):
            del df[c]


HOWS = ["values", "cells", "nan", "labels", "rows", "sort", "columns"]


def isolation(job, sp, p, r):
    bars = bars_for(sp, p, job["extra"])
    cols = sp.cols + [c for c in ("close",) if c not in sp.cols]
    variants = [dict(order="sorted", case="lower", extra=False, gaps="none", store="float"),
                dict(order="sorted", case="lower", extra=True, gaps="none", store="int"),
                dict(order="reversed", case="mixed", extra=False, gaps="some", store="float")]
    for exact in (True, False):
        for f in variants:
            use = sp.cols if exact else cols
            for how in HOWS:
                df = make(bars, use, f)
                close = close_of(df)
                st, ind = call(lambda: cls(sp.name)(df, **p))
                if ind is None:
                    continue
                r.execs += 1
                r.states += 1
                c2 = close.copy()
                base = (ind.getTiData().copy(deep=True), ind.getTiValue(), ind.getTiSignal())
                sim0 = None
                simulate = how in ("values", "cells", "rows") and f is variants[0] and exact

                def ask(c=None):
                    with no_plot():
                        a, b, _ = ind.getTiSimulation(c2.copy() if c is None else c)
                    return a, b
                if simulate:
                    x = ask()
                    sim0 = (x[0].copy(deep=True), dict(x[1]))

                def same(what):
                    r.transitions += 1
                    r.compared += 3
                    r.nontrivial += 3
                    d = diff_table(ind.getTiData(), base[0])
                    if not d and not (len(base[1]) == len(ind.getTiValue()) and all(a == b or (a != a and b != b) for a, b in zip(ind.getTiValue(), base[1]))):
                        d = "last value %r instead of %r" % (ind.getTiValue(), base[1])
                    if not d and ind.getTiSignal() != base[2]:
                        d = "signal %r instead of %r" % (ind.getTiSignal(), base[2])
                    if not d and simulate:
                        d = diff_sim(ask(), sim0)
                    if d:
                        r.fail("%s:isolation:%s" % (sp.name, what), "%s: after the caller changed (%s) %s: %s" % (label(sp, p), how, what, d), form=f)
                    return not d
                spoil(df, how)
                if not same("its input table"):
                    return
                t = ind.getTiData()
                spoil(t, how)
                if not same("a returned indicator table"):
                    return
                v = ind.getTiValue()
                v[:] = [-1.0] * len(v)
                if not same("a returned value list"):
                    return
                if simulate:
                    with no_plot():
                        a, b, _ = ind.getTiSimulation(close)
                    spoil(close, how)
                    spoil(a, how)
                    b.clear()
                    if not same("the close prices and a returned simulation"):
                        return
                    a, b = ask(c2)
                    spoil(a, how)
                    b.clear()
                    if diff_sim(ask(c2), sim0):
                        r.fail(sp.name + ":isolation:again", "%s: after the caller changed (%s) a returned simulation the same simulation answers differently: %s" % (label(sp, p), how, diff_sim(ask(c2), sim0)))
                        return
                    # the same table again with other prices in it: the answer is that of a fresh object
                    c3 = c2.astype("float64")
                    ask(c3)
                    c3.iloc[:, 0] = c3.iloc[::-1, 0].to_numpy().copy()
                    st, f2 = call(lambda: cls(sp.name)(make(bars, use, f), **p))
                    with no_plot():
                        want = f2.getTiSimulation(c3.copy())[:2]
                    d = diff_sim(ask(c3), want)
                    r.transitions += 4
                    if d:
                        r.fail(sp.name + ":isolation:reused", "%s: a simulation with a table whose prices the caller has changed since: %s" % (label(sp, p), d))
                        return
                    keep = ask()
                    saved = (keep[0].copy(deep=True), dict(keep[1]))
                    ask()
                    if diff_sim(keep, saved):
                        r.fail(sp.name + ":isolation:result", "%s: a returned simulation changes when another one is run" % label(sp, p))
                        return


def utils(job, r):
    for f in forms():
        for fn in ("fill", "validate", "validate_off", "sim"):
            for how in HOWS:
                df = make(W.long("bars4")[20:30], ["open", "high", "low", "close", "volume"], f)
                s = Frozen(df)
                if fn == "fill":
                    out = fillMissingValues(df)
                elif fn == "sim":
                    sim = TradingSimulation(input_data_index=df.index, close_values=df)
                    for i in range(3):
                        sim.runSimulationRound(i, ("buy", -1))
                    out = sim.closeSimulation()[0]
                else:
                    out = validateInputData(df, ["close", "high"], "X", fill_missing_values=fn == "validate")
                r.execs += 1
                r.states += 1
                r.transitions += 2
                r.compared += 2
                r.nontrivial += 2
                d = s.diff()
                if d:
                    r.fail("utils:%s" % fn, "%s modified the caller's table: %s (form %s)" % (fn, d, f))
                    return
                keep = out.copy(deep=True)
                spoil(out, how)
                d = s.diff()
                if d:
                    r.fail("utils:%s:out" % fn, "changing (%s) the table returned by %s changed the caller's table: %s (form %s)" % (how, fn, d, f))
                    return
                if fn == "sim":
                    continue
                df2 = make(W.long("bars4")[20:30], ["open", "high", "low", "close", "volume"], f)
                out2 = fillMissingValues(df2) if fn == "fill" else validateInputData(df2, ["close", "high"], "X", fill_missing_values=fn == "validate")
                spoil(df2, how)
                d = diff_table(out2, keep)
                if d:
                    r.fail("utils:%s:in" % fn, "changing (%s) the caller's table changed the table %s had returned: %s (form %s)" % (how, fn, d, f))
                    return


def finish(tier, tot):
    return [] if tot.nontrivial > 5000 else ["only %d comparisons" % tot.nontrivial]
