#!/usr/bin/env python3
"""Writes mc/lively.json: for every indicator and parameter set the piece of a long series with the most varied signals by the reference rules
(mc/specs.py only, nothing of the library), so that sequence checks run on data where signals really occur.  Run: /opt/venv/bin/python tools/gen_lively.py"""
import json, os, sys
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import worlds as W
from mc.specs import SPECS, rule_ctx
from mc.refmath import ANY
from mc import p_c02
WARM = {"NegativeVolumeIndex": 255, "PositiveVolumeIndex": 255, "ChaikinOscillator": 90, "DirectionalMovementIndex": 41, "KlingerOscillator": 55, "IchimokuCloud": 78,
        "MassIndex": 41, "WilliamsAccumulationDistribution": 30, "UltimateOscillator": 36, "VerticalHorizontalFilter": 21}
SERIES = ["bars4", "walk6", "regimes", "tenths", "sevens", "threes", "fours", "ranges", "bulges", "divergence", "walk2", "bars5", "ordinary", "trends", "geo", "spikes"]


def signals(sp, p, bars):
    full, d = sp.params(p), W.cols_of(bars)
    t = {c: [float("nan") if x is ANY else x for x in v] for c, v in sp.ref(d, full).items() if c != "_tol"}
    ctx = rule_ctx(sp, p, d, t)
    out = []
    for i in range(len(bars) - sp.drop(full)):
        s = ctx.signals(i)
        out.append(next(iter(s)) if len(s) == 1 else "?")
    return out


def score(sg, w):
    x = sg[-w:]
    b, s = x.count("buy"), x.count("sell")
    ch = sum(u != v for u, v in zip(x, x[1:]))
    return min(b, 4) + min(s, 4) + (5 if b and s else 0) + min(ch, 6) * 0.5 + (2 if sg and sg[-1] in ("buy", "sell") else 0) - x.count("?")


def one(a):
    name, p = a
    sp = SPECS[name]
    full = sp.params(p)
    need = sp.minrows(full) + sp.drop(full)
    warm = max(need, WARM.get(name, 0), full.get("period", 0) if name in ("TypicalPrice", "MedianPrice") else 0)
    warm = max(warm, {"DoubleExponentialMovingAverage": 2 * full.get("period", 0), "TripleExponentialMovingAverage": 3 * full.get("period", 0),
                      "MovingAverage": 2 * full.get("period", 0) if full.get("ma_type") == "triangular" else 0,
                      "StochasticMomentumIndex": sum(v for v in full.values() if isinstance(v, int)) if name == "StochasticMomentumIndex" else 0,
                      "VolatilityChaikins": full.get("ema_period", 0) + full.get("change_period", 0)}.get(name, 0))
    cand = {12: [], 30: []}
    for s in SERIES:
        bars = W.long(s)[:720]
        if len(bars) < warm + 12:
            continue
        sg = signals(sp, p, bars)
        for w in cand:
            for e in range(warm + w, len(bars) + 1, 1):
                k = e - sp.drop(full)
                if k <= len(sg):
                    cand[w].append((score(sg[:k], w), s, e))
    out = {}
    for w in cand:
        best = None
        cand[w].sort(key=lambda x: (-x[0], x[1], x[2]))
        seen = {}
        for sc, s, e in cand[w]:
            seen[s] = seen.get(s, 0) + 1
            if seen[s] > 4 or sum(min(v, 4) for v in seen.values()) > 16:
                continue
            n = warm + w
            v = score(signals(sp, p, W.long(s)[e - n: e]), w)
            if best is None or v > best[0]:
                best = (v, s, e - n, n)
        if best:
            out[str(w)] = list(best[1:]) + [best[0]]
    return name + "|" + json.dumps(p, sort_keys=True), out


if __name__ == "__main__":
    todo = []
    for sp in SPECS.values():
        for p in list(sp.small) + list(sp.long) + [{}] + p_c02.configs(sp):
            if p not in [q for n, q in todo if n == sp.name]:
                todo.append((sp.name, p))
    with Pool(8) as pool:
        res = dict(pool.map(one, todo, chunksize=1))
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc", "lively.json")
    with open(path, "w") as fh:
        fh.write("{\n" + ",\n".join(" %s: %s" % (json.dumps(k), json.dumps(res[k])) for k in sorted(res)) + "\n}\n")
    for k in sorted(res):
        if any(v[3] < 8 for v in res[k].values()):
            print(k, res[k])
