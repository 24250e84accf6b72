"""C14: minimum data, completeness of every query, shape of the table."""
import re
from .env import pd, np, no_plot, NotEnoughInputData
from .specs import SPECS
from .tables import build, label
from . import worlds as W

RULE = "n < minimum: the not-enough-data error naming the minimum and n; n >= minimum: constructor, table, value, signal, graph and simulation complete and the table has exactly the documented shape"
BOUNDS = {
    "quick": "every indicator x all small/large parameter sets and a sweep of every parameter over 1..12 (two-parameter grids 1..5) x every number of bars 1..minimum+3 x ordinary / flat / rising / falling / zero-volume / spiking bars "
             "(the last three counts below the minimum on every kind of data), filling on and off",
    "thorough": "parameter sweep 1..40, grids 1..9, every number of bars 1..minimum+8 on every kind of data",
}
SIG = {("hold", 0), ("buy", -1), ("sell", 1)}
SIMCOLS = ["signal", "open_trading_action", "stock_value", "exposure", "portfolio_value", "earnings", "balance"]
STATS = {"number_of_trading_days", "number_of_buy_signals", "number_of_ignored_buy_signals", "number_of_sell_signals", "number_of_ignored_sell_signals",
         "last_stock_value", "last_exposure", "last_open_long_positions", "last_open_short_positions", "last_portfolio_value", "last_earnings", "final_balance"}
KINDS = ["ordinary", "flat", "up", "down", "zerovol", "spike"]


def data(kind, n):
    if kind == "ordinary":
        return W.long("ordinary")[:n]
    if kind == "flat":
        return [W.FLAT] * n
    if kind == "up":
        return W.walk([1.0] * n, start=16.0)
    if kind == "down":
        return W.walk([-0.5] * n, start=1024.0)
    if kind == "zerovol":
        return [b[:4] + (0,) for b in W.long("walk6")[200: 200 + n]]
    return (W.long("spikes") * 3)[:n]


def sweep(sp, q):
    out = list(sp.small)
    for p in sp.long:
        if p not in out:
            out.append(p)
    full = sp.params({})
    m = 12 if q else 40
    g = 5 if q else 9
    if "ma_type" in full:
        for t in ("simple", "exponential", "time_series", "triangular", "variable"):
            out += [dict(period=n, ma_type=t) for n in range(1 + (t == "time_series"), m + 1)]
    elif "period" in full and "momentum_period" not in full and "smoothing_period" not in full:
        lo = 2 if sp.name in ("ProjectionBands", "ProjectionOscillator", "TimeSeriesForecast", "ForecastOscillator", "LinearRegressionIndicator") else 1
        out += [dict(period=n) for n in range(lo, m + 1)]
    elif "long_ma" in full or "long_period" in full:
        a, b = ("long_ma", "short_ma") if "long_ma" in full else ("long_period", "short_period")
        out += [{a: i, b: j} for i in range(2, g + 4) for j in range(1, i)]
    elif sp.name == "StochasticOscillator":
        out += [dict(k_periods=i, k_slowing_periods=s, d_periods=j, d_method=d) for i in range(1, g) for s in (1, 3) for j in range(1, g) for d in ("simple", "exponential")]
    elif sp.name == "Performance":
        pass
    elif full:
        ks = sorted(full)
        import itertools
        for v in itertools.product(range(1, g if len(ks) == 2 else g - 1), repeat=len(ks)):
            out.append(dict(zip(ks, v)))
    u = []
    for p in out:
        if p not in u:
            u.append(p)
    return u


def jobs(tier):
    q = tier == "quick"
    out = []
    for sp in SPECS.values():
        for p in sweep(sp, q):
            deep = p in sp.small or p in sp.long
            out.append(dict(ind=sp.name, p=p, kinds=KINDS if (deep or not q) else ["ordinary", "flat"], over=(3 if deep else 1) if q else (8 if deep else 3), below=3 if q else 10 ** 6))
    out.sort(key=lambda j: -SPECS[j["ind"]].minrows(SPECS[j["ind"]].params(j["p"])))
    return out


def refused(r, sp, p, bars, need, fill, kind):
    n = len(bars)
    r.execs += 1
    r.states += 1
    r.compared += 1
    r.transitions += 1
    try:
        build(sp, p, W.frame(bars), fill_missing_values=fill)
    except NotEnoughInputData as e:
        nums = re.findall(r"-?\d+(?:\.\d+)?", str(e))
        if str(need) not in nums:
            r.fail(sp.name + ":message", "%s: %d bars refused without naming the minimum %d: %s" % (label(sp, p), n, need, e))
        r.nontrivial += 1
        return
    except Exception as e:
        r.fail(sp.name + ":error", "%s: %d bars (minimum %d) refused with %s: %s" % (label(sp, p), n, need, type(e).__name__, e))
        return
    r.fail(sp.name + ":accepted", "%s: %d bars accepted although the minimum is %d (%s)" % (label(sp, p), n, need, kind))


def works(r, sp, p, bars, fill, kind):
    n = len(bars)
    full = sp.params(p)
    df = W.frame(bars)
    where = "%s with %d %s bars (minimum %d, filling %s)" % (label(sp, p), n, kind, sp.minrows(full), fill)
    r.execs += 1
    r.states += 1
    r.transitions += 6
    r.compared += 6
    r.nontrivial += 1
    step = "constructor"
    try:
        ind = build(sp, p, df, fill_missing_values=fill)
        step = "table"
        ti = ind.getTiData()
        m = max(0, n - sp.drop(full))
        if list(ti.columns) != sp.out(full) or len(ti) != m or list(ti.index) != list(df.index[:m]):
            r.fail(sp.name + ":shape", "%s: table has %d rows of %s" % (where, len(ti), list(ti.columns)))
            return
        bad = [c for c in ti.columns if not pd.api.types.is_numeric_dtype(ti[c]) or pd.api.types.is_bool_dtype(ti[c])]
        if bad:
            r.fail(sp.name + ":dtype", "%s: columns %s are not numeric (%s)" % (where, bad, [str(x) for x in ti.dtypes]))
            return
        step = "value"
        v = ind.getTiValue()
        if (v is None) != (m == 0) or (m and len(v) != len(ti.columns)):
            r.fail(sp.name + ":value", "%s: value is %r" % (where, v))
            return
        step = "signal"
        s = ind.getTiSignal()
        if s not in SIG:
            r.fail(sp.name + ":signal", "%s: signal is %r" % (where, s))
            return
        step = "graph"
        with no_plot():
            ind.getTiGraph()
            step = "simulation"
            sim, st, _ = ind.getTiSimulation(df[["close"]].copy())
        if list(sim.columns) != SIMCOLS or list(sim.index) != list(df.index) or set(st) != STATS:
            r.fail(sp.name + ":simulation", "%s: simulation has columns %s, %d rows, statistics %s" % (where, list(sim.columns), len(sim), sorted(st)))
            return
        rows = sim.iloc[:m]
        if not set(rows["signal"]) <= {"hold", "buy", "sell"} or not set(rows["open_trading_action"]) <= {"none", "long", "short"} or rows.iloc[:, 2:].isna().any().any():
            r.fail(sp.name + ":simulation", "%s: simulation holds undefined cells" % where, sim=sim.to_string())
    except Exception as e:
        import traceback
        r.fail("%s:%s" % (sp.name, step), "%s: %s raises %s: %s" % (where, step, type(e).__name__, str(e)[:120]), traceback=traceback.format_exc()[-2500:])


def run_job(job, r):
    sp, p = SPECS[job["ind"]], job["p"]
    need = sp.minrows(sp.params(p))
    for k, kind in enumerate(job["kinds"]):
        for n in range(1, need):
            if kind == "ordinary" or need - n <= job["below"]:
                refused(r, sp, p, data(kind, n), need, (n + k) % 2 == 0, kind)
        for n in range(need, need + job["over"] + 1):
            works(r, sp, p, data(kind, n), (n + k) % 2 == 0, kind)
            if len(r.viol) > 5:
                return
    r.sample(indicator=label(sp, p), minimum=need)


def finish(tier, tot):
    return [] if tot.nontrivial > 3000 else ["only %d cases" % tot.nontrivial]
