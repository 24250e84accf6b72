"""C03: any call sequence on one object answers like fresh objects, also after rejected or aborted simulations."""
import os
import sys
from .env import REPO, no_plot, plt, pd
from .obs import diff_table, diff_sim, fig_digest, eq_digest, Frozen
from .specs import SPECS
from .tables import build, label
from .p_c02 import configs
from . import worlds as W

RULE = "the answer of every call in every call sequence equals the answer of a freshly built object asked only that; likewise after an exception injected at every explored point of a simulation"
BOUNDS = {
    "quick": "10 operations (table, 3 lookups, signal, graph, 2 simulations, 2 rejected simulations): all ordered pairs of 6 of them on fresh objects plus a walk containing every ordered pair on one object, per indicator; "
             "aborts (KeyboardInterrupt and RuntimeError) at the first, middle and last execution of every source line of the indicator modules and (every 6th indicator) one execution of every line of the simulation module",
    "thorough": "all triples in a walk on one object; aborts at every line event of a simulation (fixed-window indicators: every 3rd)",
}
CHUNK = 1
TTI = os.path.join(os.path.realpath(REPO), "tti")


class World:
    def __init__(self, sp, p, extra=6, data="walk6"):
        self.sp, self.p = sp, p
        n = max(sp.minrows(sp.params(p)), 3) + extra
        self.bars = W.lively(sp.name, p) if data == "lively" else W.long(data)[118: 118 + n]
        self.df = W.frame(self.bars)
        self.close = self.df[["close"]].copy()
        self.other = pd.DataFrame({"close": [40.0 + (x * 7) % 11 for x in range(len(self.close))]}, index=self.close.index)
        self.short = self.close.iloc[1:].copy()
        self.date = self.df.index[-3]
        self.ops = {
            "data": lambda o: o.getTiData(),
            "value": lambda o: o.getTiValue(),
            "value_date": lambda o: o.getTiValue(str(self.date.date())),
            "value_absent": lambda o: o.getTiValue("1999-01-01"),
            "signal": lambda o: o.getTiSignal(),
            "graph": self.graph,
            "sim": lambda o: self.sim(o),
            "sim_other": lambda o: self.sim(o, self.other),
            "sim_limit": lambda o: self.sim(o, max_exposure=150.0, short_exposure_factor=1.0),
            "sim_badclose": lambda o: self.rejected(o, self.short),
            "sim_badlimit": lambda o: self.rejected(o, self.close, max_exposure=-1.0),
        }
        self.exp = {k: f(self.fresh()) for k, f in self.ops.items()}

    def fresh(self):
        return build(self.sp, self.p, self.df.copy())

    @staticmethod
    def graph(o):
        with no_plot():
            o.getTiGraph()
        return None

    def sim(self, o, close=None, **kw):
        with no_plot():
            return o.getTiSimulation(self.close if close is None else close, **kw)[:2]

    def rejected(self, o, close, **kw):
        try:
            with no_plot():
                o.getTiSimulation(close, **kw)
        except Exception as e:
            return (type(e).__name__, str(e))
        return "accepted"

    def ask(self, o, op):
        return self.ops[op](o)

    def diff(self, op, got):
        exp = self.exp[op]
        if op == "data":
            return diff_table(got, exp)
        if op.startswith("sim") and "bad" not in op:
            return diff_sim(got, exp)
        if op.startswith("value"):
            if (got is None) != (exp is None):
                return "%r instead of %r" % (got, exp)
            if exp is None or (len(got) == len(exp) and all(a == b or (a != a and b != b) for a, b in zip(got, exp))):
                return None
            return "%r instead of %r" % (got, exp)
        return None if got == exp else "%r instead of %r" % (got, exp)


OPS = ["data", "value", "value_date", "value_absent", "signal", "graph", "sim", "sim_other", "sim_limit", "sim_badclose", "sim_badlimit"]
CHEAP = ["data", "value", "value_date", "signal"]


def jobs(tier):
    out = []
    for sp in SPECS.values():
        cf = configs(sp)
        live = [sp.small[-1]] + [p for p in sp.long[:1] if p != sp.small[-1]]
        for p in live if tier == "quick" else live + [p for p in cf if p not in live]:
            need = sp.minrows(sp.params(p))
            if tier == "quick" and need > 60 and p != sp.small[-1]:
                continue
            data = "lively" if p in sp.small + sp.long else "walk6"
            out.append(dict(kind="walk", ind=sp.name, p=p, data=data, order=2 if tier == "quick" or need > 20 else 3))
        for p in cf[:1] + ([] if tier == "quick" else cf[1:3]):
            big = sp.minrows(sp.params(p)) > 20
            if tier != "quick":
                out.append(dict(kind="walk", ind=sp.name, p=p, order=2))
            if not big or tier != "quick":
                out.append(dict(kind="pairs", ind=sp.name, p=p if tier != "quick" else live[0], data="walk6" if tier != "quick" else "lively", full=tier != "quick"))
            out.append(dict(kind="graph", ind=sp.name, p=live[0] if p == cf[0] else p, data="lively" if p == cf[0] else "walk6"))
            out.append(dict(kind="abort", ind=sp.name, p=p, exc="KeyboardInterrupt", points="lines" if tier == "quick" else "all"))
            if tier != "quick":
                out.append(dict(kind="abort", ind=sp.name, p=p, exc="RuntimeError", points="lines"))
        out.append(dict(kind="abort", ind=sp.name, p=cf[0], exc="RuntimeError", points="few"))
    out.sort(key=lambda j: (j["kind"] != "abort", -SPECS[j["ind"]].minrows(SPECS[j["ind"]].params(j["p"]))))
    return out


class Abort:
    """Traces library lines; counts them, or raises at one of them."""

    def __init__(self, at=None, exc=None):
        self.n, self.at, self.exc, self.seen = 0, at, exc, []

    def glob(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(TTI):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            k = self.n
            self.n += 1
            if self.at is None:
                self.seen.append((frame.f_code.co_filename, frame.f_lineno))
            elif k == self.at:
                raise self.exc("injected")
        return self.local

    def run(self, f):
        old = sys.gettrace()
        sys.settrace(self.glob)
        try:
            return f()
        finally:
            sys.settrace(old)


def run_job(job, r):
    sp, p = SPECS[job["ind"]], job["p"]
    kind = job["kind"]
    w = World(sp, p, 6 if kind != "abort" else 3, job.get("data", "walk6"))
    r.count("signals", sum(x != "hold" for x in w.exp["sim"][0]["signal"]) if w.exp["sim"] else 0)

    def ask(o, op, hist):
        got = w.ask(o, op)
        r.transitions += 1
        r.compared += w.exp[op].size if op == "data" else w.exp[op][0].size + 12 if op in ("sim", "sim_limit", "sim_other") else 1
        r.execs += 1
        r.nontrivial += bool(hist)
        d = w.diff(op, got)
        if d:
            r.fail("%s:%s" % (sp.name, op), "%s: after %s the %s call answers differently from a fresh object: %s" % (label(sp, p), hist[-4:], op, d), history=hist, bars=w.bars)
            return False
        return True

    if kind == "walk":
        o, hist = w.fresh(), []
        for k in W.de_bruijn(len(OPS), job["order"]):
            if not ask(o, OPS[k], hist):
                return
            hist.append(OPS[k])
            r.states += 1
        r.sample(indicator=label(sp, p), calls=len(hist), order=job["order"])
    elif kind == "pairs":
        ops = OPS if job["full"] else ["data", "value_date", "signal", "graph", "sim", "sim_badlimit"]
        for a in ops:
            for b in ops:
                o = w.fresh()
                if not ask(o, a, []) or not ask(o, b, [a]):
                    return
                r.states += 1
                for c in CHEAP:
                    if not ask(o, c, [a, b]):
                        return
    elif kind == "graph":
        def dig(o):
            plt.close("all")
            o.getTiGraph()
            d = fig_digest()
            plt.close("all")
            return d
        exp = dig(w.fresh())
        o = w.fresh()
        for hist in (["sim"], ["graph", "sim"], ["sim_badclose"], ["data", "signal", "sim_limit"]):
            for h in hist:
                w.ask(o, h)
            r.transitions += 1
            r.compared += 1
            r.states += 1
            if not eq_digest(dig(o), exp):
                r.fail(sp.name + ":graph", "%s: graph drawn after %s differs from the graph of a fresh object" % (label(sp, p), hist))
                return
    else:
        exc = {"KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError}[job["exc"]]
        t = Abort()
        o0 = w.fresh()
        t.run(lambda: w.sim(o0))
        occ = {}
        for k, loc in enumerate(t.seen):
            occ.setdefault(loc, []).append(k)
        if job["points"] == "all":
            big = sp.minrows(sp.params(p)) > 20
            pts = list(range(0, len(t.seen), 3 if big else 1)) if len(t.seen) < 6000 else list(range(0, len(t.seen), 1 + len(t.seen) // 3000))
        elif job["points"] == "few":
            pts = sorted({ks[len(ks) // 2] for loc, ks in occ.items() if "_technical_indicator" in loc[0]} |
                         {ks[-1] for loc, ks in occ.items() if "utils" not in loc[0] and "_technical" not in loc[0]})
        else:
            big = sp.minrows(sp.params(p)) > 20
            pts = set()
            for loc, ks in occ.items():
                if "utils" in loc[0]:
                    pts |= set() if big or list(SPECS).index(sp.name) % 6 else {ks[len(ks) // 2]}
                else:
                    pts |= {ks[len(ks) // 2], ks[-1]} if big else {ks[0], ks[len(ks) // 2], ks[-1]}
            pts = sorted(pts)
        r.count("abort_points", len(pts))
        for k in pts:
            o = w.fresh()
            t2 = Abort(k, exc)
            hit = False
            try:
                t2.run(lambda: w.sim(o))
            except exc as e:
                hit = "injected" in str(e)
            r.count("aborted" if hit else "not_propagated")
            r.states += 1
            hist = ["simulation aborted by %s at %s:%d (event %d)" % (job["exc"], os.path.basename(t.seen[k][0]), t.seen[k][1], k)]
            for op in CHEAP:
                if not ask(o, op, hist):
                    return
            if k == pts[len(pts) // 2] or k == pts[-1]:
                if not ask(o, "sim", hist) or not ask(o, "graph", hist):
                    return


def finish(tier, tot):
    return [] if tot.counts.get("aborted", 0) > 1000 else ["only %d simulations were aborted" % tot.counts.get("aborted", 0)]
