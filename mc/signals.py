"""C10-C12: every signal equals the documented rule applied to the published values and the bars."""
import json
import os
from .env import pd
from .specs import FAMILY, SPECS, rule_ctx
from .tables import build, label, tab
from .obs import simulate
from .values import SMALL, SCALED, sweep
from . import worlds as W

TS = {("hold", 0), ("buy", -1), ("sell", 1)}
RULE = ("the signal call after every explored history, and the signal recorded for every day of a simulation, belong to the set the reference rule (mc/specs.py) yields from the published table and the bars "
        "(a set only where a comparison with a derived, unpublished average is decided by float noise)")
BOUNDS = {
    "quick": "every day of 14 series (De Bruijn words of bars and steps, exact-threshold words, regimes, bulges, divergences, cut to 260 days past the warm-up) for up to 4 parameter sets; "
             "all continuations of <= 3 steps from around every signal day of rare-signal indicators; all continuations of <= 3 bars over 4 after 4 base histories for every small parameter set",
    "thorough": "every day of all series in full for all parameter sets; all continuations of <= 4 bars over 4 (<= 3 over 8) after 4 base histories",
}
SERIES = ["bars4", "walk6", "regimes", "spikes", "tenths", "sevens", "threes", "fours", "ranges", "divergence", "walk2", "bars5", "ordinary", "trends"]
RARE = ["IchimokuCloud", "MassIndex", "DirectionalMovementIndex", "UltimateOscillator", "PositiveVolumeIndex", "KlingerOscillator", "Qstick",
        "VerticalHorizontalFilter", "WilliamsAccumulationDistribution", "ParabolicSAR", "AverageTrueRange"]
NEAR = [-8.0, -1.0, 0.0, 1.0, 8.0]


_EDGES = None


def edges(name):
    """Histories (worlds.edge) on which one-point changes of a signal rule show; written by tools/gen_edges.py."""
    global _EDGES
    if _EDGES is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "edges.json")) as fh:
            _EDGES = json.load(fh)
    return _EDGES.get(name, [])


def series(name, sp, p):
    if name.startswith("edge:"):
        return W.edge(*(int(x) for x in name.split(":")[1:]))
    if name.startswith("far:"):
        return W.far_bars(name.split(":")[1], int(name.split(":")[2]), sp.params(p).get("period", 14))
    return W.long(name)


def cfgs(sp, tier):
    out = []
    for p in list(sp.small) + list(sp.long):
        if p not in out:
            out.append(p)
    if tier == "quick" and len(out) > 4:
        ks = {0, len(sp.small) - 1, len(sp.small) // 2, len(sp.small)}
        if sp.name == "MovingAverage":
            ks = {1, 4, 7, 9, 11}
        if sp.name == "Performance":
            ks = {0, 2, 3, 4, 5}
        out = [p for k, p in enumerate(out) if k in ks]
    return out


def jobs_for(fam, tier):
    out = []
    for sp in FAMILY[fam]:
        for p in cfgs(sp, tier):
            for k, s in enumerate(SERIES):
                if tier == "quick" and fam == "osc" and p != sp.small[min(1, len(sp.small) - 1)] and k in (10, 11, 12, 3):
                    continue
                out.append(dict(kind="sim", ind=sp.name, p=p, series=s, cut=tier == "quick"))
        sw = [p for p in sweep(sp, tier) if p not in cfgs(sp, tier)]
        if tier == "quick":
            sw = [sw[(k * (len(sw) - 1)) // 5] for k in range(6)] if len(sw) > 6 else sw
        for k, p in enumerate(sw):
            if sp.minrows(sp.params(p)) < 140:
                out.append(dict(kind="sim", ind=sp.name, p=p, series=("walk2", "trends", "regimes")[k % 3], cut=True))
        for k, p in enumerate(cfgs(sp, tier)):
            for j, s in enumerate(SCALED):
                if tier != "quick" or (j + k) % 4 == 0 or len(sp.small) == 1:
                    out.append(dict(kind="sim", ind=sp.name, p=p, series=s, cut=True))
        cs = cfgs(sp, tier)
        for k, s in enumerate(("below", "flatstart", "plateau")):
            for p in cs if tier != "quick" else [cs[(k + 1) % len(cs)]]:
                out.append(dict(kind="sim", ind=sp.name, p=p, series=s, cut=False))
        if sp.name in ("MassIndex", "RangeIndicator", "WilliamsR"):      # rules that look back without limit
            out.append(dict(kind="sim", ind=sp.name, p=cfgs(sp, tier)[0], series="slowbulge", cut=False))
            for s in ("middle", "middle_low", "long_bulge"):
                out.append(dict(kind="sim", ind=sp.name, p=cfgs(sp, tier)[0], series="far:%s:%d" % (s, 700 if tier == "quick" else 1600), cut=False))
        for p, seed, n in edges(sp.name):
            out.append(dict(kind="sim", ind=sp.name, p=p, series="edge:%d:%d" % (seed, n), cut=False))
        if sp.name in RARE:
            for s in SERIES + ["bulges"]:
                if s in ("tenths", "bars5", "ordinary", "spikes") and tier == "quick":
                    continue
                out.append(dict(kind="near", ind=sp.name, p=sp.small[-1], series=s, days=2 if tier == "quick" else 8, L=2 if tier == "quick" else 3))
        for p in sp.small:
            for pre in ("mixed", "bars", "osc", "up", "flat"):
                out.append(dict(kind="small", ind=sp.name, p=p, prefix=pre, L=3 if tier == "quick" else 4))
    out.sort(key=lambda j: (j["kind"] != "sim", j["series"] if "series" in j else ""))
    return out


def judge(r, sp, p, ctx, i, got, where, bars):
    exp = ctx.signals(i)
    r.compared += 1
    r.states += 1
    if got in ("buy", "sell"):
        r.count("%s/%s" % (sp.name, got))
        r.nontrivial += 1
    elif "hold" not in exp:
        r.nontrivial += 1
    if got not in exp:
        r.fail("%s:signal" % sp.name, "%s: signal %r on day %d, the rule gives %s [%s]" % (label(sp, p), got, i, "/".join(sorted(exp)), where),
               day=i, bars=bars[max(0, i - 40): i + 1], table={c: [repr(x) for x in v[max(0, i - 5): i + 1]] for c, v in ctx.t.items()})
        return False
    if len(exp) > 1:
        r.count("either_way")
    return True


def run_job(job, r):
    sp, p = SPECS[job["ind"]], job["p"]
    full = sp.params(p)
    need = sp.minrows(full)
    if job["kind"] == "sim":
        bars = series(job["series"], sp, p)
        if job["cut"]:
            warm = {"NegativeVolumeIndex": 255, "PositiveVolumeIndex": 255, "ChaikinOscillator": 90, "DirectionalMovementIndex": 41, "KlingerOscillator": 55,
                    "IchimokuCloud": 78, "MassIndex": 41, "WilliamsAccumulationDistribution": 30, "UltimateOscillator": 30}.get(sp.name, need)
            n = warm + (200 if warm < 90 else 130)
            if job["series"] in ("ranges", "divergence", "regimes", "trends"):
                n += 60
            if sp.name in RARE:
                n = max(n, 420)
            bars = bars[:n]
        if len(bars) < need:
            return
        df = W.frame(bars)
        ind = build(sp, p, df)
        ti = tab(ind.getTiData())
        sim, _ = simulate(ind, df[["close"]].copy())
        r.execs += 1
        ctx = rule_ctx(sp, p, W.cols_of(bars), ti)
        m = len(next(iter(ti.values())))
        sig = sim["signal"].tolist()
        r.transitions += m
        for i in range(m):
            if not judge(r, sp, p, ctx, i, sig[i], "simulation of " + job["series"], bars):
                return
        last = ind.getTiSignal()
        if last not in TS:
            r.fail(sp.name + ":form", "%s: signal call returns %r" % (label(sp, p), last))
        elif m and not judge(r, sp, p, ctx, m - 1, last[0], "signal call, series " + job["series"], bars):
            return
        r.sample(indicator=label(sp, p), series=job["series"], days=m, buys=sig.count("buy"), sells=sig.count("sell"))
        return
    if job["kind"] == "near":
        bars = W.long(job["series"])[:700]
        ind = build(sp, p, W.frame(bars))
        ti = tab(ind.getTiData())
        ctx = rule_ctx(sp, p, W.cols_of(bars), ti)
        want = {"buy": [], "sell": []}
        for i in range(len(bars)):
            for s in ctx.signals(i):
                if s != "hold":
                    want[s].append(i)
        days = sorted({d for v in want.values() for d in (v if len(v) <= job["days"] else [v[(k * (len(v) - 1)) // max(1, job["days"] - 1)] for k in range(job["days"])])})
        r.count("rare_days/" + sp.name, len(days))
        for d in days:
            pre = bars[: max(need, d - job["L"] + 1)]
            for L in range(1, job["L"] + 2):
                for seq in W.products(NEAR if L <= job["L"] else NEAR[1:4], L):
                    b = pre + W.walk(seq, start=pre[-1][3])
                    if min(x[2] for x in b) <= 0:
                        continue
                    ind = build(sp, p, W.frame(b))
                    r.execs += 1
                    r.transitions += L
                    got = ind.getTiSignal()
                    if got not in TS or not judge(r, sp, p, rule_ctx(sp, p, W.cols_of(b), tab(ind.getTiData())), len(b) - 1, got[0], "near day %d of %s" % (d, job["series"]), b):
                        return
        return
    alpha = SMALL["vol" if "volume" in sp.cols else "price"]
    # the flat history is long enough for every average used by a rule to settle exactly at the price
    pre = W.base_prefix(job["prefix"], max(need, 4) + (2 if need < 8 else 0) + (12 if job["prefix"] == "flat" else 0))
    for L in range(1, job["L"] + 1):
        big = need > 8
        if big and L == job["L"]:
            alpha = alpha[:3]
        for seq in W.products(alpha, L):
            bars = pre + list(seq)
            ind = build(sp, p, W.frame(bars))
            r.execs += 1
            r.transitions += L
            ti = tab(ind.getTiData())
            m = len(next(iter(ti.values())))
            if not m:
                continue
            got = ind.getTiSignal()
            if got not in TS:
                r.fail(sp.name + ":form", "%s: signal call returns %r" % (label(sp, p), got))
                return
            if not judge(r, sp, p, rule_ctx(sp, p, W.cols_of(bars), ti), m - 1, got[0], "signal call, %s + %d bars" % (job["prefix"], L), bars):
                return


NEVER = {"sell": {"MovingAverage", "DoubleExponentialMovingAverage", "TypicalPrice", "UltimateOscillator", "NegativeVolumeIndex"}, "buy": set()}


def finish_for(fam, tot):
    out = []
    for sp in FAMILY[fam]:
        for s in ("buy", "sell"):
            if sp.name not in NEVER[s] and not tot.counts.get("%s/%s" % (sp.name, s)):
                out.append("no %s signal of %s" % (s, sp.name))
    return out
