"""C22: homogeneity in the units of price and volume."""
from .specs import SPECS
from .tables import build, label, tab
from . import worlds as W

RULE = "table(price x k, volume x q)[column] == table(price, volume)[column] * k^a * q^b with the documented unit (a, b) of the column, up to the published rounding of both; missing cells coincide"
BOUNDS = {
    "quick": "every homogeneous indicator x all parameter sets x 7 long series (200 rows, every row) x 8 pairs (k, q) of powers of two between 2^-44 and 2^40; all sequences of <= 3 bars over 4 for the small parameter sets",
    "thorough": "14 series x 15 pairs, all sequences of <= 5 bars over 4, sequences of <= 3 bars after 3 base histories for fixed windows",
}
EXCLUDED = {"SwingIndex", "RangeIndicator"}      # defined with a fixed limit move / not homogeneous by definition
SER = ["bars4", "walk6", "geo", "regimes", "ordinary", "trends", "bars5"]
MORE = ["spikes", "tenths", "sevens", "threes", "ranges", "divergence", "walk2"]
PAIRS = [(64, 1), (1, 1024), (8, 256), (4096, 0.25), (2.0 ** -18, 1), (2.0 ** -44, 1), (1, 2.0 ** -40), (2.0 ** 40, 2.0 ** 30)]
PAIRS_T = PAIRS + [(2.0 ** -14, 2), (2.0 ** -24, 2.0 ** 20), (2, 2), (1 << 14, 1), (1, 1 << 16), (1 / 4, 64), (16, 1 << 20)]
WHOLE = {"AccumulationDistributionLine", "ChaikinOscillator"}     # every day's flow is published in whole units
BASE = 256.0      # prices of the base data stay well above the rounding step


def jobs(tier):
    q = tier == "quick"
    out = []
    for sp in SPECS.values():
        if sp.deg is None:
            continue
        cf = list(sp.small)
        for p in sp.long:
            if p not in cf:
                cf.append(p)
        for p in cf:
            for s in SER if q else SER + MORE:
                out.append(dict(kind="long", ind=sp.name, p=p, series=s, pairs=PAIRS if q else PAIRS_T))
        for p in sp.small:
            need = sp.minrows(sp.params(p))
            if need <= 8:
                out.append(dict(kind="small", ind=sp.name, p=p, prefix="flat", n=0, L=3 if q else 5, pairs=[(64, 1024)] if q else [(64, 1024), (4, 1)]))
            else:
                for pre in ("mixed",) if q else ("mixed", "bars", "osc"):
                    out.append(dict(kind="small", ind=sp.name, p=p, prefix=pre, n=need - 1, L=2 if q else 3, pairs=[(64, 1024)]))
    out.sort(key=lambda j: j["kind"] != "small")
    return out


def scaled(bars, k, q):
    return [(o * k, h * k, l * k, c * k, v * q) for o, h, l, c, v in bars]


def deg(sp, col):
    return sp.deg[col] if isinstance(sp.deg, dict) else sp.deg


def widths(sp, p, base):
    """For the two indicators that divide by a difference of rounded quantities: that difference per row (0: no guarantee)."""
    n = sp.params(p)["period"] if "period" in sp.params(p) else 0
    if sp.name == "RelativeStrengthIndex":
        c = [b[3] for b in base]
        g = [max(y - x, 0.0) for x, y in zip(c, c[1:])]
        l = [max(x - y, 0.0) for x, y in zip(c, c[1:])]
        out = [0.0] * len(c)
        if len(g) < n:
            return out
        ag, al = sum(g[:n]) / n, sum(l[:n]) / n
        out[n] = ag + al
        for i in range(n, len(g)):
            ag, al = ag + (g[i] - ag) / n, al + (l[i] - al) / n
            out[i + 1] = ag + al
        return out
    if sp.name == "ProjectionOscillator":
        t = tab(build(SPECS["ProjectionBands"], {"period": n}, W.frame(base, floats=True)).getTiData())
        return [u - l if u == u else 0.0 for u, l in zip(t["upper_band"], t["lower_band"])]
    return None


def judge(r, sp, p, bars, pairs, where):
    base = scaled(bars, BASE, 1024 if sp.name in WHOLE else 1)
    a = tab(build(sp, p, W.frame(base, floats=True)).getTiData())
    r.execs += 1
    wd = widths(sp, p, base)
    for k, q in pairs:
        b = tab(build(sp, p, W.frame(scaled(base, k, q), floats=True)).getTiData())
        r.execs += 1
        r.transitions += len(bars)
        for c in a:
            dp, dv = deg(sp, c)
            f = float(k) ** dp * float(q) ** dv
            step = sp.eps * (1.0 + f)
            xa, xb = a[c], b[c]
            blind = 0
            r.compared += len(xa)
            for i in range(len(xa)):
                x, y = xa[i] * f, xb[i]
                tol = (i + 1) * (1.0 + f) if sp.name in WHOLE else step
                if sp.name == "ForecastOscillator":      # per cent of the close, of a published forecast
                    tol += 0.011 / base[i][3] * (1.0 + 1.0 / k)
                if wd is not None:
                    w = wd[i] * min(k, 1.0)
                    if w < 0.05:
                        blind = 60
                        continue
                    if blind and c == "trigger_line":
                        blind -= 1
                        continue
                    tol += 100 * 4e-4 * (sp.params(p)["period"] + 1) / w
                if x != x or y != y:
                    if (x != x) == (y != y):
                        continue
                elif abs(x - y) <= tol + 1e-9 * max(abs(x), abs(y)) or x == y:
                    r.nontrivial += 1
                    continue
                r.fail(sp.name + ":scale", "%s column %s row %d: price x %s, volume x %s turns %r into %r instead of %r [%s]" % (label(sp, p), c, i, k, q, xa[i], y, x, where),
                       bars=base[max(0, i - 40): i + 1])
                return False
    if where.startswith("series"):
        r.states += max(0, len(bars) - sp.minrows(sp.params(p)) + 1)
    else:
        r.state(label(sp, p), tuple(bars))
    return True


def run_job(job, r):
    sp, p = SPECS[job["ind"]], job["p"]
    if job["kind"] == "long":
        judge(r, sp, p, W.long(job["series"])[:200], job["pairs"], "series " + job["series"])
        r.sample(indicator=label(sp, p), series=job["series"], units=repr(sp.deg))
        return
    alpha = [W.UP, W.DOWN, W.FLAT, W.GAP] if "volume" not in sp.cols else [W.UP, W.DOWN, W.ZERO, W.GAP]
    pre = W.base_prefix(job["prefix"], job["n"])
    need = sp.minrows(sp.params(p))
    for L in range(1, job["L"] + 1):
        if len(pre) + L < need:
            continue
        for seq in W.products(alpha, L):
            if not judge(r, sp, p, pre + list(seq), job["pairs"], "%d base bars + %d" % (len(pre), L)):
                return


def finish(tier, tot):
    return [] if tot.nontrivial > 500000 else ["only %d defined cells" % tot.nontrivial]
