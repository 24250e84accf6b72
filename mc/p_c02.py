"""C02: tables and simulations of a prefix equal the rows of every longer history."""
from .env import no_plot
from .obs import simulate, diff_table
from .specs import SPECS
from .tables import build, label
from . import worlds as W

RULE = "table(prefix) == first rows of table(history) and simulation(prefix) == first rows of simulation(history), cell by cell"
BOUNDS = {
    "quick": "every prefix (every 2nd or 4th for long warm-ups) of 4 series (De Bruijn bar words cut to 110 rows from 3 offsets) for every causal indicator and parameter set; every continuation of 1 bar over 10 and 2 bars over 6 "
             "(flat, zero volume, extreme) after 3 base histories; simulations of every 5th prefix and every one-bar continuation",
    "thorough": "every prefix of 8 series of up to 330 rows; every continuation of length <= 3 over 8 bars plus extremes after 5 base histories; simulations of every prefix",
}
CONT = W.BARS + [W.HUGE, (10.0, 10.25, 0.25, 0.5, 1)]
CHUNK = 1
MODAL = ("MovingAverage", "StochasticOscillator", "Performance")       # parameters that choose another calculation
FAR = [360, 364, 365, 366, 400, 499, 500, 501, 504, 511, 512, 513, 600, 700, 730, 750, 756, 800, 900, 999, 1000, 1001, 1008, 1023, 1024, 1025]


def configs(sp):
    out = [sp.small[0], sp.small[-1], sp.long[0]] + list(sp.long[1:2])
    if sp.name == "MovingAverage":
        out = [p for p in sp.small if p["period"] == 3] + [p for p in sp.long if p["period"] == 5]
    if sp.name == "StochasticOscillator":
        out += [dict(k_periods=3, k_slowing_periods=3, d_periods=3, d_method="exponential")]
    if sp.name == "Performance":
        out = [sp.small[0], dict(mode="SHORT", target=-0.1)]
    u = []
    for p in out:
        if p not in u:
            u.append(p)
    return u


def jobs(tier):
    out = []
    q = tier == "quick"
    series = [("bars4", 0), ("walk6", 90), ("spikes", 0), ("regimes", 30)]
    if not q:
        series += [("ordinary", 40), ("bars4", 300), ("bars5", 500), ("walk2", 20), ("geo", 40), ("regimes", 190)]
    for sp in SPECS.values():
        if not sp.causal:
            continue
        for p in configs(sp):
            need = sp.minrows(sp.params(p))
            for s, off in series:
                out.append(dict(kind="prefix", ind=sp.name, p=p, series=s, off=off, n=min(need + (60 if q else 200), 330), step=1 if not q else 1 + (need > 8) + 2 * (need > 40)))
            for base in (("bars", "walk") if q else ("bars", "walk", "flat", "osc", "up")):
                out.append(dict(kind="cont", ind=sp.name, p=p, base=base, L=2 if q else 3))
        # units that change along the way, tiny and large prices, long continuations: a few prefixes each
        for k, p in enumerate(configs(sp)):
            need = sp.minrows(sp.params(p))
            for j, (s, off) in enumerate((("walk6@grow", 0), ("ordinary@fall", 0), ("bars5@p-9v-6", 40), ("ordinary6", 300), ("spikes@p10v12", 0))):
                if q and (j + k) % 2:
                    continue
                out.append(dict(kind="prefix", ind=sp.name, p=p, series=s, off=off, n=(420 if s == "ordinary6" else need + 120) if q else 700, step=(100 if s == "ordinary6" else 13) if q else 5))
        # every length up to more than a year of days, and round lengths beyond
        for k, p in enumerate(configs(sp)[:1] if q and sp.name not in MODAL else configs(sp)):
            for a in range(0, 6):
                out.append(dict(kind="prefix", ind=sp.name, p=p, series="ordinary", off=7 * k, n=1100, step=1, lengths=a, of=6))
        live = [sp.small[-1]] + [p for p in sp.long[:1] if p != sp.small[-1]]
        for p in live:
            if not q or len(W.lively(sp.name, p, 30)) <= 100:
                out.append(dict(kind="sim", ind=sp.name, p=p, series="lively", off=0, extra=0, step=4 if q else 1))
        out.append(dict(kind="sim", ind=sp.name, p=configs(sp)[0], series="walk6", off=120, extra=36 if q else 120, step=6 if q else 1))
        out.append(dict(kind="sim", ind=sp.name, p=configs(sp)[-1], series="regimes" if q else "spikes", off=35, extra=36 if q else 100, step=6 if q else 1))
    out.sort(key=lambda j: j["kind"] != "sim")
    return out


def table(sp, p, bars):
    return build(sp, p, W.frame(bars)).getTiData()


def run_job(job, r):
    sp, p = SPECS[job["ind"]], job["p"]
    need = sp.minrows(sp.params(p))
    if job["kind"] == "prefix":
        bars = (W.long(job["series"])[job["off"]:] + W.long("bars4"))[: job["n"]]
        full = table(sp, p, bars)
        ms = range(max(need, 2), len(bars), job["step"])
        if "lengths" in job:
            ms = [m for m in list(range(max(need, 2), 301)) + FAR if max(need, 2) <= m < len(bars)][job["lengths"]:: job["of"]]
        for m in ms:
            t = table(sp, p, bars[:m])
            r.execs += 1
            r.states += 1
            r.transitions += m
            r.compared += t.size
            r.nontrivial += int(t.notna().sum().sum())
            if len(t) != m:
                r.fail(sp.name + ":rows", "%s: %d rows for %d bars" % (label(sp, p), len(t), m))
                return
            d = diff_table(t, full.iloc[:m], sp.eps, grid=True)
            if d:
                r.fail(sp.name + ":prefix", "%s: table of the first %d bars and of all %d bars of %s differ: %s" % (label(sp, p), m, len(bars), job["series"], d), bars=bars)
                return
        r.sample(indicator=label(sp, p), series=job["series"], prefixes=len(bars) - need)
    elif job["kind"] == "cont":
        k = max(need, 3)
        base = W.base_prefix(job["base"] if job["base"] != "walk" else "mixed", k)
        ref = table(sp, p, base)
        for L in range(1, job["L"] + 1):
            alpha = CONT if L == 1 or (L == 2 and job["L"] == 3) else CONT[::2] + [W.HUGE]
            for seq in W.products(alpha, L):
                t = table(sp, p, base + list(seq))
                r.execs += 1
                r.states += 1
                r.transitions += L
                r.compared += ref.size
                r.nontrivial += int(ref.notna().sum().sum())
                d = diff_table(t.iloc[:k], ref, sp.eps, grid=True)
                if d:
                    r.fail(sp.name + ":continuation", "%s: appending %s changes earlier values: %s" % (label(sp, p), list(seq), d), bars=base)
                    return
    else:
        bars = W.lively(sp.name, p, 30) if job["series"] == "lively" else (W.long(job["series"])[job["off"]:])[: need + job["extra"]]
        fr = W.frame(bars)
        close = fr[["close"]].copy()
        full, fstats = simulate(build(sp, p, fr), close, max_exposure=400.0)
        ms = list(range(max(need, 2), len(bars), job["step"]))
        for m in ms + [("alt", c) for c in (range(0, 10, 3) if job["step"] > 1 else range(10))]:
            if isinstance(m, tuple):
                b2 = bars[:-1] + [CONT[m[1]]]
                f2 = W.frame(b2)
                sim, _ = simulate(build(sp, p, f2), f2[["close"]].copy(), max_exposure=400.0)
                k = len(bars) - 1
                what = "replacing the last bar by %s" % (CONT[m[1]],)
            else:
                sim, _ = simulate(build(sp, p, fr.iloc[:m].copy()), close.iloc[:m].copy(), max_exposure=400.0)
                k = m
                what = "history of %d instead of %d bars" % (m, len(bars))
            r.execs += 1
            r.states += 1
            r.transitions += k
            r.compared += 7 * k
            r.nontrivial += int((sim["signal"] != "hold").sum())
            d = diff_table(sim.iloc[:k], full.iloc[:k], 1e-9)
            if d:
                r.fail(sp.name + ":simulation", "%s: %s changes earlier simulation rows: %s" % (label(sp, p), what, d), bars=bars)
                return


def finish(tier, tot):
    return [] if tot.nontrivial > 100000 else ["only %d defined cells" % tot.nontrivial]
