#!/usr/bin/env python3
"""tools/try_seeded.py [ID...]: run each planted bug's own check (quick) against a scratch copy of /repo with the patch; table to stdout.
With --all: every check against the bug."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
allp = "--all" in sys.argv
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
for b in ids:
    meta = json.load(open(V + "/seeded/%s/meta.json" % b))
    w = "/tmp/plant/try_" + b
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs("/tmp/plant", exist_ok=True)
    shutil.copytree("/repo", w, symlinks=True)
    subprocess.run(["git", "apply", V + "/seeded/%s/patch.diff" % b], cwd=w, check=True)
    res = []
    for p in props if allp else [meta["property"]]:
        q = subprocess.run(["./check", p, "--tier", "quick"], cwd=V, env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lines = [l for l in q.stdout.splitlines() if l.startswith("violation")]
        res.append("%s:%s" % (p, "CAUGHT" if q.returncode == 1 and "VIOLATION property=" + p in q.stdout else "missed" if q.returncode == 0 else "ERR%d" % q.returncode))
        if not allp or q.returncode:
            res.append((lines[0][:160] if lines else ""))
    print(b, meta["property"], *res, flush=True)
    shutil.rmtree(w, ignore_errors=True)
