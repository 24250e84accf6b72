#!/usr/bin/env python3
"""tools/mutate.py [FILE...]: systematic one-point changes of the indicator files, each judged by the jobs of the checks that concern the indicator.

For every change (comparison made non-strict, constant +-1, operator swapped, branch forced, statement dropped, argument dropped, ...) a forked
process imports the changed copy and runs the quick jobs of the properties, stopping at the first violation. Prints the changes nothing noticed:
each is either equivalent or a hole. Not a check: a tool used while building them."""
import ast, copy, importlib, json, os, shutil, signal, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import warnings
warnings.simplefilter("ignore")
import numpy, pandas, statsmodels.api, statsmodels.regression.rolling, matplotlib  # noqa
matplotlib.use("Agg")
import matplotlib.pyplot  # noqa

VAL = {"avg": ["C07", "C10"], "osc": ["C08", "C11"], "vol": ["C09", "C12"]}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
ARI = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def strip(t):
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return t


def mutants(src):
    """(description, new source) for every one-point change."""
    base = strip(ast.parse(src))
    text0 = ast.unparse(base)
    nodes = list(ast.walk(base))
    infunc = set()
    for n in nodes:
        if isinstance(n, ast.FunctionDef):
            infunc |= {id(x) for b in n.body for x in ast.walk(b)}
            infunc |= {id(x) for x in n.args.defaults}
        if isinstance(n, ast.Raise):
            infunc -= {id(x) for x in ast.walk(n)}
    skip = set()
    for n in nodes:
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)}
    out, seen = [], {text0}

    def emit(desc, line):
        t = ast.unparse(base)
        if t not in seen:
            seen.add(t)
            out.append((desc + " @%d" % line, t))
    for n in nodes:
        if id(n) not in infunc or id(n) in skip:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for k, op in enumerate(list(n.ops)):
                for table in (SWAP, FLIP):
                    if type(op) in table:
                        n.ops[k] = table[type(op)]()
                        emit("%s -> %s in %s" % (type(op).__name__, type(n.ops[k]).__name__, ast.unparse(n)[:70]), ln)
                        n.ops[k] = op
        elif isinstance(n, ast.BinOp) and type(n.op) in ARI:
            op = n.op
            n.op = ARI[type(op)]()
            emit("%s -> %s in %s" % (type(op).__name__, type(n.op).__name__, ast.unparse(n)[:70]), ln)
            n.op = op
        elif isinstance(n, ast.BoolOp):
            op = n.op
            n.op = ast.Or() if isinstance(op, ast.And) else ast.And()
            emit("%s swapped in %s" % (type(op).__name__, ast.unparse(n)[:70]), ln)
            n.op = op
            if len(n.values) > 1:
                for k in range(len(n.values)):
                    v = n.values.pop(k)
                    if len(n.values) == 1:
                        pass
                    emit("dropped condition %s" % ast.unparse(v)[:70], ln)
                    n.values.insert(k, v)
        elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None:
            old = n.value
            news = [not old] if isinstance(old, bool) else [old + 1, old - 1] if isinstance(old, int) else [old + 1e-3, old - 1e-3, old * 1.1]
            for v in news:
                n.value = v
                emit("%r -> %r" % (old, v), ln)
            n.value = old
        elif isinstance(n, ast.Constant) and n.value in ("open", "high", "low", "close", "volume"):
            old = n.value
            for v in ("high", "low", "close", "volume", "open"):
                if v != old:
                    n.value = v
                    emit("%r -> %r" % (old, v), ln)
            n.value = old
        elif isinstance(n, ast.If):
            old = n.test
            for b in (True, False):
                n.test = ast.Constant(b)
                emit("if %s -> %s" % (ast.unparse(old)[:60], b), ln)
            n.test = old
        elif isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                v = n.keywords.pop(k)
                emit("dropped argument %s" % ast.unparse(v)[:50], ln)
                n.keywords.insert(k, v)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("round", "abs", "shift", "cumsum", "copy"):
                pass
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("mean", "max", "min", "sum"):
                old = n.func.attr
                n.func.attr = {"mean": "median", "max": "min", "min": "max", "sum": "mean"}[old]
                emit("%s() -> %s()" % (old, n.func.attr), ln)
                n.func.attr = old
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With, ast.Try)):
            for field in ("body", "orelse"):
                body = getattr(n, field, None) or []
                for k in range(len(body)):
                    if isinstance(body[k], (ast.Assign, ast.AugAssign, ast.Expr)):
                        old = body[k]
                        body[k] = ast.Pass()
                        emit("dropped %s" % ast.unparse(old)[:70], old.lineno)
                        body[k] = old
        # method call unwrapping: x.f(...) -> x for selected f
        for field, val in ast.iter_fields(n):
            vals = val if isinstance(val, list) else [val]
            for k, c in enumerate(vals):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("round", "abs", "shift", "cumsum", "copy", "fillna", "ffill", "bfill", "sort_index", "sort_values", "astype"):
                    if isinstance(val, list):
                        val[k] = c.func.value
                    else:
                        setattr(n, field, c.func.value)
                    emit("removed .%s in %s" % (c.func.attr, ast.unparse(c)[-60:]), getattr(c, "lineno", ln))
                    if isinstance(val, list):
                        val[k] = c
                    else:
                        setattr(n, field, c)
    assert ast.unparse(base) == text0
    return out


def judge(job):
    """Runs in a forked child: import the changed copy, run the jobs; exit code = index of the killing property + 10, 0 = survived."""
    tree, ind, props, limit = job
    os.environ["VERIF_REPO"] = tree
    os.environ["MPLCONFIGDIR"] = "/tmp/plant/mpl"
    signal.alarm(limit)
    try:
        from mc import core
    except BaseException:
        return 9
    for k, p in enumerate(props):
        try:
            m = importlib.import_module("mc.p_" + p.lower())
        except BaseException:
            return 9
        for j in m.jobs("quick"):
            if ind is not None and '"%s"' % ind not in json.dumps(j):
                continue
            r = core.Res()
            try:
                m.run_job(j, r)
            except BaseException:
                return 10 + k
            if r.viol:
                return 10 + k
    return 0


def fork_judge(args):
    f, desc, text, ind, props, limit = args
    base = tempfile.mkdtemp(prefix="mut", dir="/tmp/plant/mut")
    os.symlink("/repo/docs", base + "/docs")
    shutil.copytree("/repo/tti", base + "/tti", ignore=shutil.ignore_patterns("__pycache__"))
    with open(os.path.join(base, f), "w") as fh:
        fh.write(text)
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open("/dev/null", os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            rc = judge((base, ind, props, limit))
        except BaseException:
            rc = 8
        os._exit(rc)
    _, st = os.waitpid(pid, 0)
    shutil.rmtree(base, ignore_errors=True)
    rc = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
    return f, desc, rc, props


def main():
    sys.dont_write_bytecode = True
    os.makedirs("/tmp/plant/mut", exist_ok=True)
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    extra = [a[8:].split(",") for a in sys.argv[1:] if a.startswith("--props=")]
    only = [a[7:] for a in sys.argv[1:] if a.startswith("--desc=")]
    files = args or sorted("tti/indicators/" + f for f in os.listdir("/repo/tti/indicators") if f.startswith("_") and f.endswith(".py") and f not in ("__init__.py", "_technical_indicator.py"))
    todo = []
    fam = json.load(open("/tmp/plant/fam.json"))
    for f in files:
        src = open("/repo/" + f).read()
        cls = [n.name for n in ast.parse(src).body if isinstance(n, ast.ClassDef)]
        ind = cls[0] if cls and cls[0] in fam else None
        props = extra[0] if extra else (fam[ind] + ["C15", "C14"] if ind else [])
        for d, t in mutants(src):
            if not only or any(o in d for o in only):
                todo.append((f, d, t, ind, props, int(os.environ.get("MUT_T", "400"))))
    todo = todo[int(os.environ.get("MUT_FROM", "0"))::int(os.environ.get("MUT_STEP", "1"))]
    print("%d changes" % len(todo), flush=True)
    t0, tally = time.time(), {}
    with ThreadPoolExecutor(int(os.environ.get("MUT_J", "8"))) as ex:
        for k, (f, d, rc, props) in enumerate(ex.map(fork_judge, todo)):
            who = props[rc - 10] if rc >= 10 else {0: "SURVIVED", 9: "no-import"}.get(rc, "rc%d" % rc)
            tally[who] = tally.get(who, 0) + 1
            if rc < 10 and rc != 9:
                print("%-9s %s: %s" % (who, os.path.basename(f), d), flush=True)
    print("done %.0fs %s" % (time.time() - t0, tally), flush=True)


if __name__ == "__main__":
    main()
