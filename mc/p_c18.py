"""C18: what is drawn equals the data."""
import itertools
from .env import pd, np, plt, linesGraph, matplotlib
import matplotlib.dates as mdates
from matplotlib.colors import to_rgba
from .specs import SPECS
from .tables import build, label
from .refmath import ema
from .p_c02 import configs
from .obs import fig_digest, eq_digest, _xs
from . import worlds as W

RULE = "the lines (label, x, y, plot they are on) and filled areas (bounding polygons) of the figure equal those the published data and the documented layout imply; earlier figures are left alone"
BOUNDS = {
    "quick": "every indicator x all characteristic parameter sets x 3 data shapes (complete, gap at the start and inside without filling, flat); simulation graph of every indicator x 2 limits; "
             "linesGraph: {1, [1], [1,1]} plots x 1-3 columns each x 4 colour lists x 4 transparency lists x 6 area lists",
    "thorough": "the same for 5 data shapes and all parameter sets, line tables up to 4 columns",
}
ONE = {"BollingerBands", "DoubleExponentialMovingAverage", "EaseOfMovement", "Envelopes", "FibonacciRetracement", "IchimokuCloud", "LinearRegressionIndicator", "MedianPrice", "MovingAverage",
       "ParabolicSAR", "PriceChannel", "ProjectionBands", "TimeSeriesForecast", "TripleExponentialMovingAverage", "TypicalPrice", "VolatilityChaikins", "WeightedClose", "WildersSmoothing"}
INPUTS = {"EaseOfMovement": [], "VolatilityChaikins": [], "MedianPrice": ["close_ema"], "MassIndex": ["close", "9_ema"], "MarketFacilitationIndex": ["volume"], "RelativeVolatilityIndex": ["high", "low"],
          "VolumeOscillator": ["volume"], "VolumeRateOfChange": ["volume"]}
AREAS = {"IchimokuCloud": ("senkou_a", "senkou_b")}


def jobs(tier):
    q = tier == "quick"
    out = []
    for sp in SPECS.values():
        cf = configs(sp) if q else list(sp.small) + list(sp.long)
        for k, p in enumerate(cf):
            for shape in ("plain", "gaps", "flat", "fine") + (() if q else ("spikes", "intraday")):
                if q and shape in ("flat", "fine") and k:
                    continue
                out.append(dict(kind="ti", ind=sp.name, p=p, shape=shape))
        if sp.name in ("IchimokuCloud", "RelativeStrengthIndex", "BollingerBands") or not q:     # years of bars: every one is drawn
            out.append(dict(kind="ti", ind=sp.name, p=cf[0], shape="years"))
        for lim in (None, 150.0):
            out.append(dict(kind="sim", ind=sp.name, p=cf[0], limit=lim))
        out.append(dict(kind="sim", ind=sp.name, p=cf[-1], limit=None, fine=True))
    out.append(dict(kind="sim", ind="WeightedClose", p={}, limit=150.0, rows=1300))
    for form in ("frame", "list1", "list2"):
        for na in (1, 2, 3) if q else (1, 2, 3, 4):
            out.append(dict(kind="lines", form=form, na=na, nb=1 + na % 3))
    out.append(dict(kind="several"))
    return out


def lines(df):
    x = _xs(mdates.date2num(df.index))
    return [(str(c), x, [float(v) for v in df[c]]) for c in df.columns]


def drawn_lines():
    return [[(l[0], l[1], l[2]) for l in ax[0]] for ax in fig_digest()[1]]


def cmp_lines(r, key, what, exp, tol=1e-9):
    """exp: list (per axes) of (label, x, y)."""
    got = drawn_lines()
    r.states += 1
    r.transitions += 1
    if len(got) != len(exp):
        r.fail(key + ":plots", "%s: %d plots drawn instead of %d" % (what, len(got), len(exp)))
        return False
    for k, (g, e) in enumerate(zip(got, exp)):
        if [x[0] for x in g] != [x[0] for x in e]:
            r.fail(key + ":labels", "%s: plot %d has lines %s instead of %s" % (what, k, [x[0] for x in g], [x[0] for x in e]))
            return False
        for (n, gx, gy), (_, ex, ey) in zip(g, e):
            r.compared += len(ey)
            r.nontrivial += sum(1 for v in ey if v == v)
            for i in range(max(len(gx), len(ex), len(gy), len(ey))):
                if i >= min(len(gx), len(ex), len(gy), len(ey)):
                    r.fail(key + ":points", "%s: line %s has %d points instead of %d" % (what, n, len(gx), len(ex)))
                    return False
                a, b = gy[i], ey[i]
                if abs(gx[i] - ex[i]) > 1e-9 or not (a == b or (a != a and b != b) or abs(a - b) <= tol * max(1.0, abs(b))):
                    r.fail(key + ":points", "%s: line %s point %d is (%r, %r) instead of (%r, %r)" % (what, n, i, gx[i], a, ex[i], b))
                    return False
    return shown(r, key, what)


def shown(r, key, what, legend=True):
    """What is drawn can be seen: lines visible, linear scales whose limits hold every point, names in a legend."""
    fig = plt.gcf()
    texts = {t.get_text() for g in list(fig.legends) + [a.get_legend() for a in fig.axes] if g is not None and g.get_visible() for t in g.get_texts()}
    for k, ax in enumerate(fig.axes):
        (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
        for ln in ax.get_lines():
            r.compared += 1
            n = str(ln.get_label())
            if not (ax.get_visible() and ln.get_visible()) or ln.get_linewidth() <= 0 or ln.get_alpha() == 0 or (ln.get_linestyle() in ("None", "", " ") and ln.get_marker() in ("None", "", " ", None)):
                r.fail(key + ":invisible", "%s: line %s of plot %d cannot be seen" % (what, n, k))
                return False
            if ax.get_xscale() != "linear" or ax.get_yscale() != "linear" or ax.xaxis_inverted() or ax.yaxis_inverted():
                r.fail(key + ":scale", "%s: plot %d has a %s/%s scale" % (what, k, ax.get_xscale(), ax.get_yscale()))
                return False
            xs, ys = _xs(ln.get_xdata(orig=False)), _xs(ln.get_ydata(orig=False))
            for x, y in zip(xs, ys):
                if x == x and y == y and abs(y) != float("inf") and not (x0 - 1e-9 <= x <= x1 + 1e-9 and y0 - 1e-9 * abs(y) <= y <= y1 + 1e-9 * abs(y)):
                    r.fail(key + ":cut", "%s: point (%r, %r) of line %s lies outside plot %d, which shows %r..%r by %r..%r" % (what, x, y, n, k, x0, x1, y0, y1))
                    return False
            if legend and k in (0, len(fig.axes) - 1) and not n.startswith("_") and n not in texts:
                r.fail(key + ":legend", "%s: line %s is named in no legend (%s)" % (what, n, sorted(texts)))
                return False
    return True


def polys(ax):
    return [([_xs(p.vertices.ravel()) for p in c.get_paths()], tuple(_xs(np.asarray(c.get_facecolor()).ravel())[:3])) for c in ax.collections]


def ref_polys(areas):
    fig, ax = plt.subplots()
    for x, y1, y2, color in areas:
        ax.fill_between(x=x, y1=y1, y2=y2, color=color)
    out = polys(ax)
    plt.close(fig)
    return out


def cmp_areas(r, key, what, fig, areas, which=-1):
    got = [polys(ax) for ax in fig.axes]
    exp = ref_polys(areas)
    r.compared += 1
    k = which % len(got)
    for i, g in enumerate(got):
        e = exp if i == k else []
        if not eq_digest([x[0] for x in g], [x[0] for x in e]):
            r.fail(key + ":area", "%s: plot %d has %d shaded areas with other bounds than the documented %d" % (what, i, len(g), len(e)))
            return False
        if not all(eq_digest(list(x[1]), list(y[1])) for x, y in zip(g, e)):
            r.fail(key + ":areacolour", "%s: shaded area has colour %s instead of %s" % (what, g[0][1], e[0][1]))
            return False
    return True


def run_job(job, r):
    plt.close("all")
    try:
        _run(job, r)
    finally:
        plt.close("all")


def series(sp, p, shape):
    n = sp.minrows(sp.params(p)) + 14 if shape != "years" else 2600
    src = {"flat": [W.FLAT] * n, "years": W.long("bars5") * 2, "spikes": W.long("spikes") * 3}.get(shape, W.long("walk6")[90:])
    idx = pd.date_range("2001-01-01 09:30", periods=n, freq="13min") if shape == "intraday" else None
    if shape == "fine":          # prices with more decimals than are published
        src = W.scale(src, 2.0 ** -13, 1)
    df = W.frame(src[:n], floats=True, index=idx)
    if shape == "gaps":
        df.iloc[0, :] = np.nan
        df.iloc[0, 3] = 20.0 if sp.cols == ["close"] else np.nan
        df.iloc[n // 2, 1] = np.nan
        df.iloc[n - 2, 3] = np.nan
    return df


def _run(job, r):
    if job["kind"] == "ti":
        sp, p = SPECS[job["ind"]], job["p"]
        df = series(sp, p, job["shape"])
        try:
            ind = build(sp, p, df, fill_missing_values=False) if job["shape"] == "gaps" and job["ind"] not in NESTED else build(sp, p, df)
        except ValueError:
            ind = build(sp, p, df)
        filled = (df if job["shape"] == "gaps" and job["ind"] not in NESTED else df.ffill().bfill())
        ti = ind.getTiData()
        cols = INPUTS.get(sp.name, ["close"])
        inp = pd.DataFrame(index=filled.index)
        for c in cols:
            if c in filled:
                inp[c] = filled[c]
            else:
                n = 9 if c == "9_ema" else sp.params(p)["period"]
                inp[c] = filled["close"].ewm(span=n, min_periods=n if c == "9_ema" else 0, adjust=False).mean()
        res = ind.getTiGraph()
        r.execs += 1
        what = "%s graph on %s data" % (label(sp, p), job["shape"])
        if res is not plt:
            r.fail(sp.name + ":return", "%s returns %r" % (what, res))
            return
        exp = [lines(inp) + lines(ti)] if sp.name in ONE else [lines(inp), lines(ti)]
        if sp.name == "MassIndex" or sp.name == "MedianPrice":
            # the averages drawn with the price may leave out their warm-up; only their defined points are compared
            got = drawn_lines()
            for a, b in zip(got, exp):
                for k, (g, e) in enumerate(zip(a, b)):
                    if e[0] in ("9_ema", "close_ema"):
                        b[k] = (e[0], e[1], [x if y == y else float("nan") for x, y in zip(e[2], g[2])])
        if not cmp_lines(r, sp.name, what, exp, tol=1e-6 if sp.name in ("MassIndex", "MedianPrice") else 0.0):
            return
        a = AREAS.get(sp.name)
        if not cmp_areas(r, sp.name, what, plt.gcf(), [(ti.index, ti[a[0]], ti[a[1]], "lightblue")] if a else []):
            return
        r.count("areas", 1 if a else 0)
        one = fig_digest()
        ind.getTiGraph()
        r.execs += 1
        if not eq_digest(one, fig_digest()):
            r.fail(sp.name + ":repeat", "%s: the second graph differs from the first" % what)
        r.sample(indicator=label(sp, p), data=job["shape"], lines=[[x[0] for x in e] for e in exp])
        return
    if job["kind"] == "sim":
        sp, p = SPECS[job["ind"]], job["p"]
        n = job.get("rows", sp.minrows(sp.params(p)) + 12)
        df = W.frame((W.long("spikes") if n < 100 else W.long("walk6") if n < 700 else W.long("bars5"))[:n], floats=True)
        if job.get("fine"):
            df[["open", "high", "low", "close"]] *= 2.0 ** -13
        sim, st, g = build(sp, p, df).getTiSimulation(df[["close"]].iloc[::-1], max_exposure=job["limit"])
        r.execs += 1
        what = "%s simulation graph" % label(sp, p)
        if g is not plt:
            r.fail(sp.name + ":simreturn", "%s returns %r" % (what, g))
            return
        got = drawn_lines()
        r.states += 1
        r.transitions += 1
        exp = [("stock_value", "close"), ("exposure", "exposure"), ("balance", "balance")]
        if len(got) != 3 or any(len(a) != 1 for a in got):
            r.fail(sp.name + ":simplots", "%s has plots with %s lines" % (what, [len(a) for a in got]))
            return
        for a, (c, lab) in zip(got, exp):
            e = [float(x) for x in sim[c]]
            r.compared += len(e)
            r.nontrivial += len(e)
            if lab not in a[0][0] or not eq_digest(a[0][2], e) or not eq_digest(a[0][1], [float(x) for x in range(1, len(e) + 1)]):
                r.fail(sp.name + ":simpoints", "%s: the line %r does not draw the %s column" % (what, a[0][0], c), got=a[0][2][:20], expected=e[:20])
                return
        shown(r, sp.name + ":sim", what, legend=False)
        return
    if job["kind"] == "several":
        df = W.frame(W.long("walk6")[90:120], floats=True)
        a, b = build(SPECS["BollingerBands"], dict(period=3), df), build(SPECS["StochasticOscillator"], dict(k_periods=3), df)
        for x, y in itertools.permutations([a, b], 2):
            for sim in (False, True):
                x.getTiGraph()
                f1, d1 = plt.gcf(), fig_digest()
                y.getTiSimulation(df[["close"]]) if sim else y.getTiGraph()
                f2 = plt.gcf()
                r.execs += 2
                r.states += 1
                r.compared += 1
                if f1 is f2:
                    r.fail("several:same", "a second graph is drawn into the figure of the first")
                    return
                plt.figure(f1.number)
                if not eq_digest(fig_digest(), d1):
                    r.fail("several:changed", "drawing a second graph changes the first one")
        return
    n = 7
    idx = pd.date_range("2001-01-01", periods=n)

    def table(k, pre, gap):
        names = ["%s0" % pre, "%%%s_" % pre, "_" + pre, 7][:k]        # names a chart must show as they are
        d = pd.DataFrame({names[j]: [float((i * (j + 2) * 7) % 11) + j for i in range(n)] for j in range(k)}, index=idx)
        if gap:
            d.iloc[0, 0] = np.nan
            d.iloc[4, k - 1] = np.nan
        return d
    colours = [["red"], ["red", "green"], ["red", "green", "blue", "black", "orange", "purple", "brown"], []]
    alphas = [[0.5], [0.25, 1.0], [0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875], []]
    for gap in (False, True):
        A, B = table(job["na"], "a", gap), table(job["nb"], "b", gap)
        data = {"frame": A, "list1": [A], "list2": [A, B]}[job["form"]]
        frames = [A, B] if job["form"] == "list2" else [A]
        k = len(frames) - 1
        last = frames[k].columns[-1]
        areas = [None, [], [dict(x="ti_index", y1=[0, "x", "a0"], y2=[k, "x", last], color="lightblue")],
                 [dict(x="ti_index", y1=[k, "x", last], y2=3.5, color="red")], [dict(x="ti_index", y1=-1.0, y2=[0, "x", "a0"])],
                 [dict(x="ti_index", y1=[0, "x", "a0"], y2=0.0, color="red"), dict(x="ti_index", y1=[k, "x", last], y2=[0, "x", "a0"], color="blue")]]
        combos = [(c, a, s) for c in colours for a in alphas for s in areas]
        if job["na"] == 2:
            pick = combos
        else:
            pick = combos[:: 5]
        for c, a, s in pick:
            keep = [f.copy(deep=True) for f in frames]
            res = linesGraph(data=data, y_label="y", title="T", lines_color=list(c), alpha_values=list(a), areas=s)
            r.execs += 1
            what = "linesGraph(%s, %d+%d columns, colours %s, transparency %s, areas %s)" % (job["form"], job["na"], job["nb"] if k else 0, c, a, s)
            if not cmp_lines(r, "lines", what, [lines(f) for f in frames], tol=0.0):
                return

            def val(v):
                return frames[v[0]][v[2]].to_list() if isinstance(v, list) else v
            exp = [(A.index, val(x["y1"]), val(x["y2"]), x.get("color", "#cccccc")) for x in (s or [])]
            if not cmp_areas(r, "lines", what, plt.gcf(), exp):
                return
            j = 0
            for ax in plt.gcf().axes:
                for ln in ax.get_lines():
                    r.compared += 1
                    if (c and to_rgba(ln.get_color()) != to_rgba(c[j % len(c)])) or (a and ln.get_alpha() != a[j % len(a)]):
                        r.fail("lines:style", "%s: line %d has colour %s, transparency %s" % (what, j, ln.get_color(), ln.get_alpha()))
                        return
                    j += 1
            sup = plt.gcf()._suptitle
            if sup is None or sup.get_text() != "T":
                r.fail("lines:title", "%s: title is %r" % (what, sup and sup.get_text()))
                return
            for f, o in zip(frames, keep):
                if not f.equals(o) or list(f.columns) != list(o.columns):
                    r.fail("lines:data", "%s changes the data it was given" % what)
                    return
            plt.close("all")


NESTED = set()


def finish(tier, tot):
    return [] if tot.nontrivial > 3000 and tot.counts.get("areas") else ["only %d points" % tot.nontrivial]
