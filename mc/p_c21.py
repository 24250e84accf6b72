"""C21: an indicator's simulation = its own signal of every prefix, run through the reference ledger on the given prices."""
from .env import pd, np
from .specs import SPECS, rule_ctx
from .tables import build, label, tab
from .obs import simulate
from .ledger import Ledger, COLS, row_diff, stats_diff
from .p_c02 import configs
from .values import SMALL
from . import worlds as W

RULE = "signal recorded for day i == signal of an indicator built on the bars up to day i; every row and statistic == the reference ledger fed with the recorded signals and the given prices; dates == the input dates ascending"
BOUNDS = {
    "quick": "every indicator x its characteristic parameter sets x 3 series (every day) x own and other close prices x 4 limit/factor pairs, rows in 2 orders; all sequences of <= 3 bars over 4 after the shortest base history",
    "thorough": "6 series of up to 200 days, 8 limit/factor pairs, all sequences of <= 4 bars after 3 base histories",
}
PAIRS = [(None, 1.5), (150.3, 1.5), (61.7, 2.0), (41.3, 1.0), (None, 1.0), (99.1, 3.25), (7.3, 1.5), (1000, 1.25)]


FAR = {"WilliamsR": ("middle", "middle_low"), "MassIndex": ("long_bulge",), "NegativeVolumeIndex": ("ordinary6",), "PositiveVolumeIndex": ("ordinary6",)}


def jobs(tier):
    out = []
    q = tier == "quick"
    for sp in SPECS.values():
        cf = configs(sp)
        need = sp.minrows(sp.params(cf[0]))
        ser = [("walk6", 100), ("bars4", 60), ("divergence", 40)] if q else [("walk6", 100), ("bars4", 60), ("divergence", 40), ("regimes", 10), ("spikes", 0), ("trends", 90)]
        for k, p in enumerate(cf):
            for j, (s, off) in enumerate(ser):
                if q and len(cf) > 4 and (k + j) % 2:
                    continue
                out.append(dict(kind="series", ind=sp.name, p=p, series=s, off=off, extra=(30 if q else 200 - min(need, 150)), pairs=2 if q else 8, shift=k + j))
            # the most varied signals; and the same with more decimals in the prices than are published
            for j, e in enumerate((0, -9, -14)):
                if q and len(cf) > 3 and (k + j) % 3:
                    continue
                out.append(dict(kind="series", ind=sp.name, p=p, series="lively@%d" % e, off=0, extra=30, pairs=2 if q else 8, shift=k + j))
        # decisions that rest on what happened hundreds of days before
        for f in FAR.get(sp.name, ()):
            out.append(dict(kind="far", ind=sp.name, p=cf[0], series=f, n=700))
        if sp.name in ("Momentum", "OnBalanceVolume", "TypicalPrice") or not q:
            out.append(dict(kind="far", ind=sp.name, p=cf[0], series="ordinary6", n=1200))
        for pre in ("mixed",) if q else ("mixed", "bars", "osc"):
            out.append(dict(kind="tree", ind=sp.name, p=sp.small[min(1, len(sp.small) - 1)], prefix=pre, L=3 if q else 4))
    out.sort(key=lambda j: j["kind"] == "tree")
    return out


def signal_of(r, sp, p, bars, cache):
    key = len(bars)
    if key not in cache:
        cache[key] = build(sp, p, W.frame(bars)).getTiSignal()[0]
        r.execs += 1
        r.transitions += len(bars)
    return cache[key]


def check_sim(r, sp, p, bars, sigs, order, prices, lim, fac, what):
    """sigs: {day: set of admissible signals} for the days whose signal is compared."""
    df = W.frame(bars)
    close = pd.DataFrame({"close": prices}, index=df.index)
    n = len(df)
    given = df if order == "sorted" else df.iloc[::-1]
    ind = build(sp, p, given)
    sim, st = simulate(ind, close if order == "sorted" else close.iloc[[i for i in range(0, n, 2)] + [i for i in range(1, n, 2)]], max_exposure=lim, short_exposure_factor=fac)
    r.execs += 1
    m = max(0, n - sp.drop(sp.params(p)))
    what = "%s on %s, limit %s, factor %s, rows %s" % (label(sp, p), what, lim, fac, order)
    if list(sim.columns) != COLS or list(sim.index) != list(df.index):
        r.fail(sp.name + ":dates", "%s: simulation table has %d rows of %s, dates %s..%s" % (what, len(sim), list(sim.columns), sim.index[:1], sim.index[-1:]))
        return False
    rec = sim["signal"].tolist()
    for i in range(m):
        r.states += 1
        r.transitions += 1
        if i in sigs:
            r.compared += 1
            if rec[i] not in sigs[i]:
                r.fail(sp.name + ":signal", "%s: recorded signal of day %d is %r, the indicator ending on that day gives %s" % (what, i, rec[i], "/".join(sorted(sigs[i]))), bars=bars[: i + 1])
                return False
            if rec[i] != "hold":
                r.nontrivial += 1
                r.count(sp.name)
    led = Ledger(prices, lim, fac)
    vals = sim.to_numpy(dtype=object)
    for i in range(m):
        if rec[i] not in ("buy", "sell", "hold"):
            r.fail(sp.name + ":signal", "%s: recorded signal of day %d is %r" % (what, i, rec[i]))
            return False
        if led.near_limit(rec[i]):
            r.count("limit_noise")
            return True
        led.step(rec[i])
        d = row_diff(vals[i], led.rows[i])
        r.compared += 7
        if d:
            r.fail(sp.name + ":ledger", "%s: day %d: %s" % (what, i, d), prices=prices[: i + 1], signals=rec[: i + 1])
            return False
    d = stats_diff(st, led.stats())
    r.compared += 12
    if d:
        r.fail(sp.name + ":stats", "%s: %s" % (what, d))
        return False
    return True


def prefix_signals(r, sp, p, bars, cache, frm):
    """Admissible signals per day: from objects built on the prefix, or (values defined over later bars) from the table up to the day."""
    full = sp.params(p)
    need = max(1, sp.minrows(full))
    if not sp.causal:
        t = tab(build(sp, p, W.frame(bars)).getTiData())
        ctx = rule_ctx(sp, p, W.cols_of(bars), t)
        return {i: ctx.signals(i) for i in range(len(next(iter(t.values()))))}
    return {i: {signal_of(r, sp, p, bars[: i + 1], cache)} for i in range(max(need - 1, frm), len(bars))}


def run_job(job, r):
    sp, p = SPECS[job["ind"]], job["p"]
    full = sp.params(p)
    need = max(1, sp.minrows(full))
    if job["kind"] == "series":
        warm = {"NegativeVolumeIndex": 255, "PositiveVolumeIndex": 255, "ChaikinOscillator": 45, "DirectionalMovementIndex": 41, "IchimokuCloud": 78, "MassIndex": 41, "UltimateOscillator": 30,
                "WilliamsAccumulationDistribution": 26}.get(sp.name, need)
        if job["series"].startswith("lively"):
            bars = W.scale(W.lively(sp.name, p, w=30), 2.0 ** int(job["series"][7:]), 1)
        else:
            bars = (W.long(job["series"])[job["off"]:] + W.long("bars4"))[: warm + job["extra"]]
        cache = {}
        sigs = prefix_signals(r, sp, p, bars, cache, len(bars) - job["extra"] - 4)
        own = [b[3] for b in bars]
        other = [40.0 + (own[-1 - i] - own[0]) / 4 + (i % 3) for i in range(len(own))]
        if min(other) <= 0:
            lo = min(other)
            other = [x - lo + 1.0 for x in other]
        for k in range(job["pairs"]):
            lim, fac = PAIRS[(k + job["shift"] * job["pairs"]) % len(PAIRS)]
            if not check_sim(r, sp, p, bars, sigs, ("sorted", "reversed")[k % 2], (own, other)[(k + job["shift"]) % 2], lim, fac, "series %s, %s close prices" % (job["series"], ("its own", "other")[(k + job["shift"]) % 2])):
                return
        r.sample(indicator=label(sp, p), series=job["series"], days=len(bars), compared_days=len(sigs), traded=sum(1 for s in sigs.values() if s != {"hold"}))
        return
    if job["kind"] == "far":
        bars = W.far_bars(job["series"], job["n"], full.get("period", 14))
        df = W.frame(bars)
        ind = build(sp, p, df)
        prices = [b[3] for b in bars]
        close = pd.DataFrame({"close": prices}, index=df.index)
        sim, st = simulate(ind, close, max_exposure=None, short_exposure_factor=1.5)
        r.execs += 1
        rec = sim["signal"].tolist()
        # days to settle by an object of their own: wherever the documented rule on the published values expects another signal,
        # and some of those with a trade
        ctx = rule_ctx(sp, p, W.cols_of(bars), tab(ind.getTiData()))
        want = [ctx.signals(i) for i in range(len(bars))]
        odd = [i for i in range(len(bars)) if rec[i] not in want[i]]
        trades = [i for i in range(len(bars)) if i not in odd and want[i] != {"hold"}]
        for i in odd[:8] + odd[-8:] + trades[-6:] + list(range(len(bars) - 4, len(bars))):
            if i < need - 1:
                continue
            r.states += 1
            r.compared += 1
            if signal_of(r, sp, p, bars[: i + 1], {}) != rec[i]:
                r.fail(sp.name + ":signal", "%s on %s (%d days): recorded signal of day %d is %r, the indicator ending on that day gives another" % (label(sp, p), job["series"], len(bars), i, rec[i]))
                return
        r.states += len(bars)
        r.transitions += len(bars)
        r.nontrivial += len(trades)
        r.count("far_trades_%s" % sp.name, len(trades))
        r.sample(indicator=label(sp, p), series=job["series"], days=len(bars), days_with_trade=len(trades), settled_by_prefix=len(odd))
        return
    alpha = SMALL["vol" if "volume" in sp.cols else "price"]
    if need > 8:
        alpha = alpha[:3]
    pre = W.base_prefix(job["prefix"], max(1, need - 1))
    for j, seq in enumerate(W.products(alpha, job["L"] if need <= 60 else job["L"] - 1)):
        bars = pre + list(seq)
        if len(bars) < need:
            continue
        sigs = prefix_signals(r, sp, p, bars, {}, len(pre))
        lim, fac = PAIRS[j % 4]
        if not check_sim(r, sp, p, bars, sigs, ("sorted", "reversed")[j % 2], [b[3] for b in bars], lim, fac, "%s base + %s" % (job["prefix"], list(seq))):
            return


def finish(tier, tot):
    few = [n for n in SPECS if not tot.counts.get(n)]
    for n in FAR:
        if not tot.counts.get("far_trades_" + n):
            return ["no trade resting on days long past for %s" % n]
    return ["no day with a buy or sell signal for %s" % ", ".join(few)] if len(few) > 4 else []
