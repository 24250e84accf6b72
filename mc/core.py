"""Check runner: jobs, workers, violations with replay files, known findings, evidence."""
import argparse
import importlib
import json
import math
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVID, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Res:
    """Result of one job."""

    def __init__(self):
        self.states = 0          # distinct (history, configuration) points at which the property was evaluated
        self.transitions = 0     # steps (bars, calls, scheduler steps, ledger rounds) executed between them
        self.execs = 0           # executions of the real code
        self.compared = 0        # individual observations compared with the oracle
        self.nontrivial = 0      # observations that exercise the property (not warm-up, not default)
        self.seen = set()        # distinct states reached (hashes), where the same state is reached along several paths
        self.counts = {}
        self.samples = []
        self.viol = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def fail(self, key, what, **case):
        if len(self.viol) < 20:
            self.viol.append({"key": key, "what": what, "case": case})

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(kw)

    def state(self, *key):
        self.seen.add(hash(key))

    def merge(self, o):
        self.seen |= o.seen
        self.states += o.states
        self.transitions += o.transitions
        self.execs += o.execs
        self.compared += o.compared
        self.nontrivial += o.nontrivial
        for k, v in o.counts.items():
            self.count(k, v)
        self.samples.extend(o.samples)
        self.viol.extend(o.viol)


_MOD = None


def _run(job):
    t = time.time()
    r = Res()
    try:
        _MOD.run_job(job, r)
    except BaseException as e:     # an unexpected escape is itself an observation
        if isinstance(e, (SystemExit,)):
            raise
        tb = traceback.format_exc()
        if "/mc/" in tb.strip().splitlines()[-3] and os.environ.get("VERIF_DEBUG"):
            sys.stderr.write(tb)
        r.fail("crash:%s:%s" % (type(e).__name__, json.dumps(job, sort_keys=True)[:120]),
               "unexpected %s: %s" % (type(e).__name__, str(e)[:200]), traceback=tb[-3000:])
    return job, r, time.time() - t


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % prop):
                body = ln.split(" ", 2)[2]
                key, _, what = body.partition(" :: ")
                out[key.replace("key=", "", 1)] = what
    return out


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--procs", type=int, default=0)
    ap.add_argument("--only", help="run only jobs whose JSON contains this text")
    ap.add_argument("--profile", action="store_true")
    a = ap.parse_args(argv)
    t0 = time.time()
    global _MOD
    _MOD = importlib.import_module("mc.p_%s" % a.prop.lower())
    prop = a.prop.upper()
    if a.replay:
        d = json.load(open(a.replay))
        _, r, _ = _run(d["job"])
        for v in r.viol:
            print("reproduced: %s" % v["what"])
        print("VIOLATION property=%s replay=%s" % (prop, a.replay) if r.viol else "not reproduced")
        return 1 if r.viol else 0
    jobs = list(_MOD.jobs(a.tier))
    if a.only:
        jobs = [j for j in jobs if a.only in json.dumps(j, sort_keys=True)]
    procs = a.procs or min(8, os.cpu_count() or 1)
    total, slow = Res(), []
    violating = []
    if procs == 1:
        it = map(_run, jobs)
        pool = None
    else:
        pool = mp.get_context("fork").Pool(procs, maxtasksperchild=getattr(_MOD, "MAXTASKS", None))
        it = pool.imap_unordered(_run, jobs, chunksize=getattr(_MOD, "CHUNK", 1))
    n = 0
    for job, r, dt in it:
        n += 1
        total.merge(r)
        slow.append((dt, job))
        for v in r.viol:
            violating.append((job, v))
    if pool:
        pool.close()
        pool.join()
    total.states += len(total.seen)
    for msg in getattr(_MOD, "finish", lambda tier, tot: [])(a.tier, total) if not a.only and not violating else []:
        violating.append(({"finish": True}, {"key": "vacuous:" + msg, "what": "check covered nothing: " + msg, "case": {}}))
    known = known_findings(prop)
    seen, news = set(), []
    for job, v in violating:
        if v["key"] in known:
            if v["key"] not in seen:
                seen.add(v["key"])
                print("KNOWN-FINDING: property=%s %s" % (prop, known[v["key"]]))
        else:
            news.append((job, v))
    os.makedirs(REPLAYS, exist_ok=True)
    rc = 0
    if news:
        rc = 1
        news.sort(key=lambda x: (len(json.dumps(x[0])), x[1]["key"]))
        job, v = news[0]
        path = os.path.join(REPLAYS, "%s.json" % prop)
        with open(path, "w") as fh:
            json.dump({"property": prop, "job": job, "key": v["key"], "what": v["what"], "case": jsonable(v["case"]),
                       "rerun": "cd %s && ./check %s --replay %s" % (VERIF, prop, path),
                       "others": [{"job": j, "key": w["key"], "what": w["what"]} for j, w in news[1:30]]}, fh, indent=1, default=repr)
        for j, w in news[:8]:
            print("violation: %s [%s]" % (w["what"], w["key"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    wall = time.time() - t0
    cov = dict(states=total.states, transitions=total.transitions,
               traces_validated_against_impl=total.execs, evaluations=total.compared,
               distinct_nontrivial=total.nontrivial, jobs=n,
               meaning=dict(dict(states="distinct points (history so far, configuration) reached",
                                 transitions="steps of the real code executed to reach them, re-executed prefixes included",
                                 traces_validated_against_impl="separate executions of the real implementation compared with the oracle",
                                 evaluations="single observations compared with the oracle",
                                 distinct_nontrivial="observations that are defined / not the default answer"),
                            **getattr(_MOD, "MEANING", {})),
               counts=dict(sorted(total.counts.items())),
               rule=getattr(_MOD, "RULE", ""), exhaustive=True,
               bounds=getattr(_MOD, "BOUNDS", {}).get(a.tier, ""),
               explored_on="the real implementation imported from /repo; every state is an execution of it compared with the oracle",
               samples=total.samples[:6] or [{"note": "no sample"}])
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as fh:
        json.dump(dict(property=prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
                       coverage=cov, wall_s=round(wall, 2), violations=len(news), known_findings=sorted(seen)), fh, indent=1, default=repr)
    print("%s %s: %d jobs, %d states, %d transitions, %d executions, %d comparisons (%d non-trivial), %.1fs, %s"
          % (prop, a.tier, n, total.states, total.transitions, total.execs, total.compared, total.nontrivial, wall,
             "violations: %d" % len(news) if news else "held"))
    if a.profile:
        for dt, j in sorted(slow, key=lambda x: -x[0])[:12]:
            print("  %.1fs %s" % (dt, json.dumps(j)[:150]))
        print("  cpu %.0fs" % sum(d for d, _ in slow))
    return rc


def same(a, b, tol):
    """Equal up to tol (absolute, and the same fraction relative to very large values); NaN and infinities must coincide."""
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol + 1e-9 * max(abs(a), abs(b))


if __name__ == "__main__":
    sys.exit(main())
