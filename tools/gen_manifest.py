#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IMPL = "Explored directly on the code of /repo (no model stands between). "
ORA = "Trusts the independent reference in mc/ (own plain-Python formulas, no code of the library) and the bounds listed in the evidence; histories outside the enumerated alphabets and lengths are not covered."
C = {
 "C01": ("exhaustive enumeration of price x signal histories of the real simulation against an explicit-state reference ledger (exact rationals)", ORA),
 "C02": ("exhaustive prefix/continuation exploration: every prefix and every short continuation of the enumerated histories, real code against itself", "No external oracle: the code is compared with itself on every continuation within the bounds."),
 "C03": ("stateless model checking of call sequences on one object, plus abort injection at every explored line of a simulation", "Answers are compared with fresh objects in the same process; aborts are exceptions raised at line boundaries."),
 "C04": ("exhaustive enumeration of input forms x calls x later mutations with deep snapshots", "Snapshots compare values, dtypes, labels, order and index of every frame handed over."),
 "C05": ("exhaustive enumeration of presentations (row orders, column orders, labels, storage types, indexes) of the same bars", "The canonical presentation is the oracle."),
 "C06": ("exhaustive enumeration of missing-cell masks against a plain-Python fill", ORA),
 "C07": ("bounded exhaustive exploration of bar sequences (all words up to a depth, De Bruijn histories) against independent reference formulas", ORA),
 "C08": ("bounded exhaustive exploration of bar sequences (all words up to a depth, De Bruijn histories) against independent reference formulas", ORA),
 "C09": ("bounded exhaustive exploration of bar and volume sequences (all words up to a depth, De Bruijn histories) against independent reference formulas", ORA),
 "C10": ("explicit-state enumeration of indicator-value and bar states of the signal rule, plus bar histories, against reference rules", ORA),
 "C11": ("explicit-state enumeration of indicator-value and bar states of the signal rule, plus bar histories, against reference rules", ORA),
 "C12": ("explicit-state enumeration of indicator-value and bar states of the signal rule, plus bar histories, against reference rules", ORA),
 "C13": ("bounded exhaustive exploration of bar sequences with range and order invariants checked in every state", "The invariants follow from the definitions; one rounding step is allowed."),
 "C14": ("exhaustive enumeration of parameter values x number of bars x kinds of bars around the minimum", "The documented minimum of each indicator is transcribed in mc/specs.py."),
 "C15": ("exhaustive cross product of parameter values and types against the documented verdict", "The documented ranges are transcribed in mc/p_c15.py."),
 "C16": ("exhaustive enumeration of combinations of input-table faults against the documented verdict", "The documented verdict is transcribed in mc/p_c16.py."),
 "C17": ("exhaustive enumeration of dates x date forms x index kinds against the published table", "The published table is the oracle."),
 "C18": ("exhaustive enumeration of layouts x data shapes; the figure's line and polygon objects are compared with the data", "Reads the matplotlib objects, not the pixels."),
 "C19": ("systematic interleaving exploration with a controlled line-level scheduler (sys.monitoring), bounded preemptions", "Preemption only at source-line boundaries of the library; two threads; preemption bound 1 (quick) / 2 (thorough)."),
 "C20": ("exhaustive cross product of close-table perturbations x limits x factors against the documented verdict and the reference result", ORA),
 "C21": ("exhaustive replay of every prefix of the enumerated histories: recorded signal against the indicator's own, ledger against the reference", ORA),
 "C22": ("bounded exhaustive exploration of bar sequences x unit changes (metamorphic invariant checked in every state)", "Powers of two make the rescaling exact in floating point; the documented unit of each column is transcribed in mc/specs.py."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -W ignore -c 'import pandas, numpy, matplotlib'", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo are needed: the checks import the library from /repo's working tree (override the path with VERIF_REPO). ./check <id> --replay <file> re-runs a violation."}
for i in ids:
    t, n = C[i]
    m["checks"].append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                        "technique": "model checking: " + t, "level": "model_checking", "level_note": IMPL + n})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]))
