#!/usr/bin/env python3
"""Writes mc/edges.json: reproducible histories (worlds.edge) on which near misses of a signal rule would give another signal.

Near misses are one-point changes of getTiSignal (tools/mutate.py). A change the long series of the checks already tell apart needs nothing; for
each other one, histories are searched until one tells it apart, and that one is added to the worlds of C10-C12 (which judge every day of it by the
reference rule, not by the library). Changes nothing tells apart are printed: equivalent, or to be looked at.
Run: /opt/venv/bin/python tools/gen_edges.py [INDICATOR...]"""
import ast, copy, json, os, sys, time, importlib, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
os.environ.setdefault("MPLBACKEND", "Agg")
import warnings
warnings.simplefilter("ignore")
from multiprocessing import Pool
import mutate
from mc.env import cls
from mc import worlds as W, signals as S
from mc.specs import SPECS
BUDGET = float(os.environ.get("EDGE_S", "60"))
PATH = os.path.join(V, "mc", "edges.json")


class Days:
    """One built indicator, its table cut at every day; signals of any rule function on those days."""

    def __init__(self, sp, p, bars):
        from mc.tables import build
        self.ind = build(sp, p, W.frame(bars))
        self.inp, self.ti = self.ind._input_data, self.ind._ti_data
        self.n = len(self.ti)
        self.view = copy.copy(self.ind)
        self.cut = [(self.inp.iloc[: i + 1], self.ti.iloc[: i + 1]) for i in range(self.n)]
        self.ref = self.run(type(self.ind).getTiSignal)

    def one(self, f, i):
        self.view._input_data, self.view._ti_data = self.cut[i]
        try:
            return f(self.view)
        except Exception as e:
            return type(e).__name__

    def run(self, f):
        return [self.one(f, i) for i in range(self.n)]

    def differs(self, f):
        for i in range(self.n):
            if self.one(f, i) != self.ref[i]:
                return i
        return None


def functions(name):
    c = cls(name)
    mod = sys.modules[c.__module__]
    src = open(mod.__file__).read()
    base = mutate.strip(ast.parse(src))
    lines = [(n.lineno, n.end_lineno) for n in ast.walk(base) if isinstance(n, ast.FunctionDef) and n.name not in ("__init__", "_calculateTi", "_calculateSarRow")]
    out = []
    for desc, text in mutate.mutants(src):
        ln = int(desc.rsplit("@", 1)[1])
        if not any(a <= ln <= b for a, b in lines):
            continue
        ns = dict(mod.__dict__)
        ns["__name__"] = mod.__name__
        try:
            exec(compile(text, mod.__file__, "exec"), ns)
        except Exception:
            continue
        f = ns[name]
        helpers = {k: v for k, v in vars(f).items() if callable(getattr(v, "__func__", v)) and not k.startswith("__") and k not in ("getTiSignal", "_calculateTi")}
        out.append((desc, f.getTiSignal, helpers))
    return c, out


def one(name):
    sp = SPECS[name]
    fam = next(k for k, v in S.FAMILY.items() if sp in v)
    c, muts = functions(name)
    orig = dict(vars(c))
    jobs = [j for j in S.jobs_for(fam, "quick") if j["ind"] == name and j["kind"] == "sim"]
    ps, cache, todo, found = S.cfgs(sp, "quick"), {}, list(muts), []
    t0 = time.time()

    def kill(d, todo):
        left, hit = [], 0
        for m in todo:
            for k, v in m[2].items():
                setattr(c, k, vars(c).get(k) if False else v)
            day = d.differs(m[1])
            for k in m[2]:
                setattr(c, k, orig[k])
            if day is None:
                left.append(m)
            else:
                hit = max(hit, day + 1)
        return left, hit
    for j in jobs:
        if not todo:
            break
        if j["series"].startswith("edge"):
            continue
        bars = S.series(j["series"], sp, j["p"])
        if j["cut"]:
            bars = bars[:420]
        try:
            d = Days(sp, j["p"], bars)
        except Exception:
            continue
        todo, _ = kill(d, todo)
        if time.time() - t0 > BUDGET * 2:
            break
    first = len(todo)
    seed, t0 = 0, time.time()
    ps = sorted(ps, key=lambda p: sp.minrows(sp.params(p)))
    while todo and time.time() - t0 < BUDGET:
        seed += 1
        p = ps[seed % len(ps)]
        need = max({"NegativeVolumeIndex": 256, "PositiveVolumeIndex": 256, "ChaikinOscillator": 91, "IchimokuCloud": 78}.get(name, 0), sp.minrows(sp.params(p)))
        n = need + (60 if need < 60 else 120)
        try:
            d = Days(sp, p, W.edge(seed, n))
        except Exception:
            continue
        was = len(todo)
        todo, n = kill(d, todo)
        if len(todo) < was:
            found.append([p, seed, n])
    return name, len(muts), first, [m[0] for m in todo], found


if __name__ == "__main__":
    names = sys.argv[1:] or list(SPECS)
    res = json.load(open(PATH)) if os.path.exists(PATH) else {}
    with Pool(int(os.environ.get("MUT_J", "6"))) as pool:
        for name, a, b, left, found in pool.imap_unordered(one, names):
            res[name] = found
            print("%s: %d changes, %d not told apart by the series, %d left, %d histories" % (name, a, b, len(left), len(found)), flush=True)
            for x in left:
                print("    ", x, flush=True)
    with open(PATH, "w") as fh:
        fh.write("{\n" + ",\n".join(' "%s": %s' % (k, json.dumps(res[k])) for k in sorted(res)) + "\n}\n")
