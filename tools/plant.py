#!/usr/bin/env python3
"""Plant bugs: tools/plant.py BATCH.py [ID...]

BATCH.py defines BUGS = [dict(id=, prop=, edits=[(file, old, new)...], demo=<python source>, needs=, breaks=)].
Each bug is applied in a scratch copy of /repo; kept in /verif/seeded/<id>/ only when the copy builds, passes the stable tests, and the
demo exits 0 on the original and non-zero on the changed tree. Then the property's quick check is run against the copy (VERIF_REPO)."""
import json, os, shutil, subprocess, sys, importlib.util, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           MPLCONFIGDIR="/tmp/plant/mpl")
DEMO_HEAD = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter("ignore")
import matplotlib
matplotlib.use("Agg")
import numpy as np, pandas as pd
import tti, tti.indicators as I


def frame(rows, columns=("open", "high", "low", "close", "volume"), start="2020-01-01"):
    return pd.DataFrame(np.array(rows, dtype="float64"), columns=list(columns), index=pd.date_range(start, periods=len(rows)))


'''
SH = '''#!/bin/bash
# run with cwd = the repository
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export MPLCONFIGDIR=$(mktemp -d)
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def one(b, par=True):
    w = "/tmp/plant/w_" + b["id"]
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, symlinks=True)
    log = []
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "EDIT matches %d times: %s" % (s.count(old), old[:70])
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff --no-color", w)
        d = os.path.join(VERIF, "seeded", b["id"])
        tmp = tempfile.mkdtemp(dir="/tmp/plant")
        open(os.path.join(tmp, "demo.py"), "w").write(DEMO_HEAD + b["demo"].strip() + "\n")
        open(os.path.join(tmp, "demo.sh"), "w").write(SH)
        open(os.path.join(tmp, "patch.diff"), "w").write(diff)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(tmp, "meta.json"), "w"), indent=1)
        rc, out = sh("bash %s/demo.sh" % tmp, "/repo")
        if rc:
            return b["id"], "DEMO fails on the unchanged tree\n" + out[-800:]
        rc, out = sh("bash %s/demo.sh" % tmp, w)
        if not rc:
            return b["id"], "DEMO passes on the changed tree\n" + out[-300:]
        last = out.strip().splitlines()[-1][:150] if out.strip() else ""
        sh("%s -m compileall -q tti" % PY, w)
        rc, out = sh("%s -m pytest -q -x -p no:cacheprovider -n %d --timeout=300" % (PY, 3 if par else 8), w)
        if rc:
            return b["id"], "TESTS fail: " + " | ".join(l for l in out.splitlines() if l.startswith(("FAILED", "ERROR")))[:300]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in os.listdir(tmp):
            shutil.copy(os.path.join(tmp, f), d)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        shutil.rmtree(tmp)
        return b["id"], "KEPT (%s)" % last
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    os.makedirs("/tmp/plant/mpl", exist_ok=True)
    sp = importlib.util.spec_from_file_location("batch", sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    bugs = [b for b in m.BUGS if not sys.argv[2:] or b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for i, msg in ex.map(one, bugs):
            print(i, msg, flush=True)
