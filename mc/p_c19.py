"""C19: several objects, call by call in one thread and line by line in two threads."""
import itertools
import multiprocessing as mp
import sys
import threading
from .env import pd, np, REPO
from .specs import SPECS
from .tables import build, label
from .p_c02 import configs
from .obs import simulate, diff_table, diff_sim, eq_val, fig_digest, eq_digest
import matplotlib.pyplot as plt
from . import worlds as W

RULE = "every answer of every object under every explored interleaving equals the answer computed by a process that did nothing else"
BOUNDS = {
    "quick": "one thread: every interleaving of {build, query, simulate} of two uses of each indicator (other values with the same dates, other parameters, other length), every ordered pair of different indicators built and queried alternately, "
             "repeated construction after the first object and its data are gone; two threads: one preemption at the first, second and last execution of every library source line (build + queries of every indicator against a same-kind use; first execution of every line in the other role, "
             "against another-kind use and for the simulations of 2 indicators)",
    "thorough": "two threads: one preemption at every executed line, two preemptions over all pairs of distinct source lines; every indicator's simulation",
}
MAXTASKS = 1
ROOT = REPO + "/tti/"


def variants(sp):
    """Two parameter sets (where there are any), three data sets: [X, other values, other parameters, other length]."""
    p0 = sp.small[-1]
    others = [p for p in list(sp.long[:1]) + list(sp.small) if p != p0 and sp.minrows(sp.params(p)) <= max(60, sp.minrows(sp.params(p0)))]
    return [(p0, 0), (p0, 1), (others[0], 0), (p0, 2), (others[0], 1)] if others else [(p0, 0), (p0, 1), (p0, 2)]


def bars_of(sp, which):
    need = max(max(sp.minrows(sp.params(p)) for p, _ in variants(sp)), 3) + 5
    a = W.lively(sp.name, sp.small[-1], 12, need)
    if len(a) > max(110, need):
        a = W.long("walk6")[200:200 + need]
    if which == 0:
        return a
    if which == 1:
        b = W.long("bars4")[100:100 + len(a) - 2]
        return [a[0]] + [tuple(x + 4.0 for x in y[:4]) + (y[4] + 64,) for y in b] + [a[-1]]
    return W.long("walk6")[350:350 + len(a) + 4]


SIMKW = dict(max_exposure=150.0, short_exposure_factor=2.0)


def use(sp, v):
    p, which = v
    return build(sp, p, W.frame(bars_of(sp, which)))


def query(ind):
    t = ind.getTiData()
    return t, ind.getTiSignal(), ind.getTiValue()


def sim(ind, sp, which):
    return simulate(ind, W.frame(bars_of(sp, which))[["close"]].copy(), **SIMKW)


def graph(ind):
    """Everything a graph draws (position, labels, colours, transparency of the lines and areas)."""
    plt.close("all")
    try:
        ind.getTiGraph()
        return fig_digest()
    finally:
        plt.close("all")


def _alone(key):
    name, v, withsim = key
    sp = SPECS[name]
    ind = use(sp, v)
    return key, (query(ind), sim(ind, sp, v[1]) if withsim else None, graph(ind))


ORA = {}


def _key(name, v, withsim=True):
    return (name, (tuple(sorted(v[0].items())), v[1]), withsim)


def _child(k):
    name, v, ws = k
    return k, _alone((name, (dict(v[0]), v[1]), ws))[1]


def oracle(name, v):
    k = _key(name, v)
    if k not in ORA:
        with mp.get_context("fork").Pool(1) as pool:
            ORA[k] = pool.apply(_child, (k,))[1]
    return ORA[k]


def diff_query(g, e):
    d = diff_table(g[0], e[0])
    if d:
        return "table: " + d
    if g[1] != e[1]:
        return "signal is %r instead of %r" % (g[1], e[1])
    if len(g[2]) != len(e[2]) or any(not eq_val(x, y) for x, y in zip(g[2], e[2])):
        return "value is %r instead of %r" % (g[2], e[2])


SIMS = ["StochasticOscillator", "OnBalanceVolume"]


def jobs(tier):
    q = tier == "quick"
    keys = [_key(sp.name, v) for sp in SPECS.values() for v in variants(sp)]
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for k, res in pool.imap_unordered(_child, keys, chunksize=1):
            ORA[k] = res
    names = list(SPECS)
    out = []
    for n in SIMS if q else names:
        out.append(dict(kind="threads", a=n, b=n, sim=True, all=False))
    for i in range(0, len(names), 8):
        out.append(dict(kind="graphs", first=i))
    for i, n in enumerate(names):
        out.append(dict(kind="threads", a=n, b=n, sim=False, all=not q))
        out.append(dict(kind="threads", a=n, b=n, sim=False, all=False, other=1))
        out.append(dict(kind="threads", a=n, b=names[(i + 5) % len(names)], sim=False, all=not q))
        out.append(dict(kind="calls", a=n))
        out.append(dict(kind="pairs", a=n))
        out.append(dict(kind="shared", a=n, all=not q, every=1 if n in SIMS else 6 if len(bars_of(SPECS[n], 0)) < 40 else 30))
        if not q:
            out.append(dict(kind="threads2", a=n, b=n))
    return out


def fail(r, what, d, **kw):
    r.fail("interference", "%s: %s" % (what, d), **kw)
    return False


def run_calls(job, r):
    sp = SPECS[job["a"]]
    vs = variants(sp)
    for k, y in enumerate(vs[1:]):
        x = vs[0]
        ops = ["build", "query", "sim"] if k == 0 else ["build", "query"]
        for order in sorted(set(itertools.permutations([0] * len(ops) + [1] * len(ops)))):
            obj, pos = [None, None], [0, 0]
            trace = []
            for t in order:
                op = ops[pos[t]]
                pos[t] += 1
                v = (x, y)[t]
                trace.append("%s(%s)" % (op, "XY"[t]))
                r.transitions += 1
                if op == "build":
                    obj[t] = use(sp, v)
                    r.execs += 1
                    continue
                e = oracle(sp.name, v)
                d = diff_query(query(obj[t]), e[0]) if op == "query" else diff_sim(sim(obj[t], sp, v[1]), e[1])
                r.compared += 1
                r.nontrivial += 1
                if d:
                    return fail(r, "%s (X=%s, Y=%s) after %s" % (sp.name, x, y, " ".join(trace)), d)
            for t in (0, 1):
                d = diff_query(query(obj[t]), oracle(sp.name, (x, y)[t])[0])
                r.compared += 1
                if d:
                    return fail(r, "%s (X=%s, Y=%s) after %s, asking %s again" % (sp.name, x, y, " ".join(trace), "XY"[t]), d)
            r.states += 1
            r.count("orders")
    # repetition: the same and other constructions one after another, each object released before the next
    seq = [vs[i] for i in (0, 1, 0, len(vs) - 1, 1, 2 % len(vs), 0)]
    for v in seq * 2:
        d = diff_query(query(use(sp, v)), oracle(sp.name, v)[0])
        r.execs += 1
        r.compared += 1
        r.states += 1
        if d:
            return fail(r, "%s: building it again with %s after other constructions" % (sp.name, v), d)
    r.sample(indicator=sp.name, variants=[repr(v) for v in vs])


def run_pairs(job, r):
    A = SPECS[job["a"]]
    va = variants(A)[0]
    for B in SPECS.values():
        if B.name == A.name:
            continue
        vb = variants(B)[1]
        a = use(A, va)
        b = use(B, vb)
        r.execs += 2
        r.states += 1
        for ind, sp, v in ((a, A, va), (b, B, vb)):
            r.transitions += 2
            r.compared += 1
            r.nontrivial += 1
            d = diff_query(query(ind), oracle(sp.name, v)[0])
            if d:
                return fail(r, "%s built, then %s built: %s answers differently" % (A.name, B.name, sp.name), d)


def run_graphs(job, r):
    """The graphs of all indicators one after another (other values, other parameters, objects new and old)."""
    names = list(SPECS)[job["first"]:] + list(SPECS)[: job["first"]]
    old = {}
    for rnd in (0, 1):
        for n in names:
            sp = SPECS[n]
            for v in variants(sp)[:3]:
                for fresh in (True, False) if rnd == 0 else (False,):
                    k = (n, repr(v))
                    if fresh:
                        old[k] = use(sp, v)
                        r.execs += 1
                    r.states += 1
                    r.transitions += 1
                    r.compared += 1
                    r.nontrivial += 1
                    if not eq_digest(graph(old[k]), oracle(n, v)[2]):
                        return fail(r, "graphs of %s.. in turn, round %d: %s%s" % (names[0], rnd + 1, n, v), "draws another graph than in a process of its own")
                if rnd and v != variants(sp)[0]:
                    break
    r.count("graphs")


def run_shared(job, r):
    """One object used by two threads: a simulation interrupted anywhere by questions or by another simulation."""
    sp = SPECS[job["a"]]
    v = variants(sp)[0]
    e = oracle(sp.name, v)
    close = W.frame(bars_of(sp, v[1]))[["close"]]
    kw2 = dict(max_exposure=61.0, short_exposure_factor=1.25)
    e2 = simulate(use(sp, v), close.iloc[::-1].copy(), **kw2)

    def answers(ind, which):
        if which == "query":
            return lambda: query(ind)
        if which == "sim":
            return lambda: sim(ind, sp, v[1])
        return lambda: simulate(ind, close.iloc[::-1].copy(), **kw2)
    ind = use(sp, v)
    Sched([answers(ind, "sim")], [(0, None)]).run()
    s = Sched([answers(use(sp, v), "sim")], [(0, None)], record=True)
    s.run()
    occ = {}
    for k, x in enumerate(s.events):
        occ.setdefault(x, []).append(k)
    for other in ("query", "sim2"):
        # every executed line of a simulation: first, one in the middle and last execution
        every = sorted(occ.values())
        if not job["all"]:
            every = every[len(sp.name) % job["every"] + (other == "sim2"):: job["every"]] if job["every"] > 1 else every
        ks = {k for o in every for k in ((o[len(o) // 2],) if not job["all"] and other == "sim2" else (o[0], o[len(o) // 2], o[-1]))}
        for k in sorted(ks):
            ind = use(sp, v)
            run = Sched([answers(ind, "sim"), answers(ind, other)], [(0, k), (1, None)])
            res = run.run()
            r.execs += 1
            r.states += 1
            r.transitions += run.steps
            r.compared += 2
            r.nontrivial += 2
            what = "%s %s, one object, a simulation interrupted at line event %d by %s" % (sp.name, v, k, "questions" if other == "query" else "another simulation")
            for t in (0, 1):
                if res[t][0] != "ok":
                    return fail(r, what, "raises " + res[t][1])
            d = diff_sim(res[0][1], e[1]) or (diff_query(res[1][1], e[0]) if other == "query" else diff_sim(res[1][1], e2)) or diff_query(query(ind), e[0])
            if d:
                return fail(r, what, d)
        r.count("shared", len(ks))


MON = sys.monitoring
TOOL = 3


def monitor(callback):
    """Calls back at every line of library code that is executed (switched on as functions are first entered)."""
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "verif")

        def start(code, offset):
            if code.co_filename.startswith(ROOT):
                MON.set_local_events(TOOL, code, MON.events.LINE)
            return MON.DISABLE
        MON.register_callback(TOOL, MON.events.PY_START, start)
        MON.set_events(TOOL, MON.events.PY_START)
    MON.register_callback(TOOL, MON.events.LINE, callback)


class Sched:
    """Runs functions in threads, one at a time, switching at chosen library line events."""

    def __init__(self, fns, plan, record=False):
        self.fns, self.plan = fns, list(plan)      # plan: [(thread, steps or None)]
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * len(fns)
        self.res = [None] * len(fns)
        self.left = None
        self.main = threading.Semaphore(0)
        self.events = [] if record else None
        self.steps = 0
        self.ids = {}

    def next(self):
        while self.plan:
            t, n = self.plan.pop(0)
            if not self.done[t]:
                self.left = n
                return t
        for t in range(len(self.fns)):
            if not self.done[t]:
                self.left = None
                return t
        return None

    def line(self, code, lineno):
        t = self.ids.get(threading.get_ident())
        if t is None:
            return
        self.steps += 1
        if self.events is not None:
            self.events.append((code.co_filename, lineno))
        if self.left is not None:
            if self.left == 0:
                n = self.next()
                if n is not None and n != t:
                    self.sem[n].release()
                    self.sem[t].acquire()
            elif self.left > 0:
                self.left -= 1

    def body(self, t):
        self.sem[t].acquire()
        self.ids[threading.get_ident()] = t
        try:
            self.res[t] = ("ok", self.fns[t]())
        except BaseException as e:
            self.res[t] = ("error", "%s: %s" % (type(e).__name__, e))
        finally:
            del self.ids[threading.get_ident()]
            self.done[t] = True
            n = self.next()
            if n is None:
                self.main.release()
            else:
                self.sem[n].release()

    def run(self):
        monitor(self.line)
        th = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(len(self.fns))]
        for x in th:
            x.start()
        n = self.next()
        self.sem[n].release()
        self.main.acquire()
        for x in th:
            x.join(20)
        return self.res


def task(sp, v, withsim):
    def f():
        ind = use(sp, v)
        return query(ind), (sim(ind, sp, v[1]) if withsim else None)
    return f


def points(sp, v, withsim, mode):
    Sched([task(sp, v, withsim)], [(0, None)]).run()       # first entry switches the line events on
    s = Sched([task(sp, v, withsim)], [(0, None)], record=True)
    res = s.run()
    if res[0][0] != "ok":
        raise RuntimeError(res[0][1])
    occ = {}
    for k, e in enumerate(s.events):
        occ.setdefault(e, []).append(k)
    if mode == "all":
        return list(range(len(s.events)))
    if mode == "first":
        return sorted(o[0] for o in occ.values())
    if len(occ) > 90:
        return sorted({x for o in occ.values() for x in (o[0], o[-1])})
    return sorted({x for o in occ.values() for x in (o[0], o[min(1, len(o) - 1)], o[-1])})


def second(sp, k):
    """The k-th use the other thread makes of the same kind of indicator."""
    vs = variants(sp)
    return vs[1] if k == 0 else vs[4] if len(vs) == 5 else vs[2]


def check_run(r, A, va, B, vb, withsim, plan):
    s = Sched([task(A, va, withsim), task(B, vb, withsim)], plan)
    res = s.run()
    r.execs += 2
    r.states += 1
    r.transitions += s.steps
    for t, (sp, v) in enumerate(((A, va), (B, vb))):
        r.compared += 1
        r.nontrivial += 1
        what = "threads X=%s%s, Y=%s%s, schedule %s: %s" % (A.name, va, B.name, vb, plan, "XY"[t])
        if res[t][0] != "ok":
            return fail(r, what, "raises " + res[t][1])
        e = oracle(sp.name, v)
        d = diff_query(res[t][1][0], e[0]) or (diff_sim(res[t][1][1], e[1]) if withsim else None)
        if d:
            return fail(r, what, d)
    return True


def run_job(job, r):
    if job["kind"] == "calls":
        run_calls(job, r)
        return
    if job["kind"] == "pairs":
        run_pairs(job, r)
        return
    if job["kind"] in ("graphs", "shared"):
        (run_graphs if job["kind"] == "graphs" else run_shared)(job, r)
        return
    A, B = SPECS[job["a"]], SPECS[job["b"]]
    va, vb = variants(A)[0], variants(B)[1] if not job.get("other") else second(B, 1)
    oracle(A.name, va), oracle(B.name, vb)
    if job["kind"] == "threads2":
        pa, pb = points(A, va, False, "first"), points(B, vb, False, "first")
        for k in pa:
            for m in pb:
                if not check_run(r, A, va, B, vb, False, [(0, k), (1, m), (0, None), (1, None)]):
                    return
        r.count("schedules2", len(pa) * len(pb))
        return
    for first, sp, v in ((0, A, va), (1, B, vb)):
        mode = "all" if job["all"] else "flt" if first == 0 and A is B and not job["sim"] and not job.get("other") else "first"
        if mode == "first" and first and (A is not B or job["sim"]):
            continue
        ps = points(sp, v, job["sim"], mode)
        for k in ps:
            if not check_run(r, A, va, B, vb, job["sim"], [(first, k), (1 - first, None)]):
                return
        r.count("schedules", len(ps))
        r.sample(threads=[A.name, B.name], simulate=job["sim"], preempted=sp.name, points=len(ps))


def finish(tier, tot):
    return [] if tot.counts.get("schedules", 0) > 3000 else ["only %s schedules" % tot.counts.get("schedules")]
