"""Building indicators and comparing their tables with the reference definition."""
import json
from .env import cls, np, pd
from .core import same
from .specs import SPECS
from .refmath import ANY
from . import worlds as W


def build(sp, p, df, **kw):
    return cls(sp.name)(df, **p, **kw)


def tab(ti):
    """Indicator table -> dict of float lists."""
    return {c: [float(x) for x in ti[c].tolist()] for c in ti.columns}


def label(sp, p):
    return sp.name + ("(" + ",".join("%s=%s" % kv for kv in sorted(p.items())) + ")" if p else "")


def compare_values(sp, p, bars, r, where, new=None, dtype=None):
    """Executes the indicator on the bars and compares every cell with the definition. False on mismatch."""
    full = sp.params(p)
    d = W.cols_of(bars)
    df = W.frame(bars)
    ind = build(sp, p, df if dtype is None else df.astype(dtype))
    r.execs += 1
    ti = ind.getTiData()
    exp = sp.ref(d, full)
    n = len(bars) - sp.drop(full)
    r.transitions += len(bars)
    names = sp.out(full)
    if list(ti.columns) != names or len(ti) != max(0, n):
        r.fail("%s:shape" % sp.name, "%s: table shape %s x %s, expected %d rows of %s [%s]" % (label(sp, p), len(ti), list(ti.columns), n, names, where))
        return False
    got = tab(ti)
    for c in names:
        e, g = exp[c], got[c]
        rt = exp["_tol"].get(c) if "_tol" in exp else None
        for i in range(len(g)):
            x = e[i]
            if x is ANY:
                r.count("left_to_noise")
                continue
            r.compared += 1
            if x == x:
                r.nontrivial += 1
            if sp.grid and g[i] == g[i] and abs(g[i]) < 1e9 and round(g[i], sp.grid) != g[i]:
                r.fail("%s:digits" % sp.name, "%s column %s row %d is %r: not rounded to the published %d decimals [%s]" % (label(sp, p), c, i, g[i], sp.grid, where), bars=bars[max(0, i - 40): i + 1], row=i)
                return False
            if not same(g[i], x, sp.tol if rt is None else rt[i]):
                r.fail("%s:value" % sp.name, "%s column %s row %d of %d is %r, definition gives %r [%s]" % (label(sp, p), c, i, len(g), g[i], x, where),
                       bars=bars[max(0, i - 40): i + 1], row=i, got=g[max(0, i - 3): i + 1], expected=e[max(0, i - 3): i + 1])
                return False
    r.states += len(bars) if new is None else new
    return True
