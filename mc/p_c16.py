"""C16: verdict on every combination of faults of the input table."""
import itertools
from .env import pd, np, cls, validateInputData, WrongTypeForInputParameter, TIM
from .specs import SPECS
from .tables import label
from . import worlds as W

RULE = "outcome of the constructor and of the validation function for every combination of faults equals the documented one; on acceptance the prepared table has exactly the required columns in ascending date order with the caller's values"
BOUNDS = {
    "quick": "every indicator x every assignment of {present, missing, text, dates, categories} to its required columns x {date index, 6 other index types}; 16 non-tables; 4 empty tables; "
             "accepted side: 4 label cases x 6 row orders x 10 kinds of additional columns x 4 gap patterns (alternate combinations; date index type cycled over 4), filling on/off",
    "thorough": "the same with the full cross product, 4 date index types and the constructor on every accepted table",
}
STATE = ["ok", "missing", "text", "dates", "category"]
TEXTS = ["text", "lasttext", "objects", "delta"]
BADIDX = ["range", "int", "str", "object", "period", "timedelta", "multi"]


def corrupt(s, how):
    if how == "objects":         # numbers, but kept as general objects
        return s.astype(object)
    if how == "lasttext":
        return pd.Series(list(s[:-1]) + ["n/a"], index=s.index, dtype=object)
    if how == "delta":
        return pd.Series(pd.to_timedelta(np.arange(len(s)), unit="D"), index=s.index)
    if how == "text":
        return s.map(lambda x: str(x)).astype(object)
    if how == "dates":
        return pd.Series(pd.date_range("1999-01-01", periods=len(s)), index=s.index)
    if how == "category":
        return pd.Series(pd.Categorical(["a"] * len(s)), index=s.index)
    return s


def bad_index(n, how):
    d = pd.date_range("2001-01-01", periods=n)
    return {"range": pd.RangeIndex(n), "int": pd.Index(np.arange(20010101, 20010101 + n)), "str": pd.Index([str(x.date()) for x in d]),
            "object": pd.Index([x.date() for x in d], dtype=object), "period": pd.period_range("2001-01-01", periods=n, freq="D"),
            "timedelta": pd.to_timedelta(np.arange(n), unit="D"), "multi": pd.MultiIndex.from_arrays([d, range(n)])}[how]


def outcome(f):
    try:
        return "ok", f()
    except Exception as e:
        return type(e).__name__, e


def req(sp):
    """Columns the indicator requires (documented): those its definition or its signal reads."""
    return list(sp.cols)


NOTTABLES = ["none", "int", "str", "list", "dict", "array", "series", "tuple", "class", "index", "float", "records", "bool", "set", "generator", "groupby"]


def nottable(k, df):
    return {"none": None, "int": 5, "str": "close", "list": [1, 2], "dict": df.to_dict(), "array": df.to_numpy(), "series": df.iloc[:, 0], "tuple": (df,), "class": pd.DataFrame,
            "index": df.index, "float": 1.5, "records": df.to_records(), "bool": True, "set": {1}, "generator": (x for x in [1]), "groupby": df.groupby(level=0)}[k]


class Sub(pd.DataFrame):
    pass


KINDS = ["plain", "subclass", "nullable", "sparse", "categorical labels", "named labels", "read-only", "float32"]


def dress(d, kind):
    """The same table in another guise (all accepted)."""
    d = d.copy()
    nums = [i for i, t in enumerate(d.dtypes) if t == np.float64]
    if kind == "subclass":
        return Sub(d)
    if kind in ("nullable", "sparse", "float32"):
        cols = [d.iloc[:, i].astype({"nullable": "Float64", "sparse": "Sparse[float64]", "float32": "float32"}[kind]) if i in nums else d.iloc[:, i] for i in range(d.shape[1])]
        out = pd.concat(cols, axis=1)
        out.columns = d.columns
        return out
    if kind == "categorical labels" and d.columns.is_unique and not any(isinstance(c, tuple) or c is None for c in d.columns):
        d.columns = pd.CategoricalIndex(d.columns)
    elif kind == "named labels":
        d.columns.name = "field"
        d.attrs["source"] = "x"
    elif kind == "read-only" and len(nums) == d.shape[1]:
        a = d.to_numpy(copy=True)
        a.setflags(write=False)
        d = pd.DataFrame(a, columns=d.columns, index=d.index, copy=False)
    return d


EXTRAS = ["none", "number", "text", "mixed", "dates", "bool", "same", "oddlabel", "shifted", "allnan"]


def add_extra(df, how):
    n = len(df)
    df = df.copy()
    if how == "number":
        df.insert(0, "Adj Close", np.arange(n) * 2.0)
    elif how == "text":
        df["note"] = ["x"] * n
    elif how == "mixed":
        df.insert(1, "Note", pd.Series([None if i % 2 else {"a": i} for i in range(n)], index=df.index, dtype=object))
    elif how == "dates":
        df["day"] = pd.date_range("1990-01-01", periods=n)
    elif how == "bool":
        df["flag"] = [bool(i % 2) for i in range(n)]
        df["cat"] = pd.Categorical(["u"] * n)
    elif how == "same":
        df["DIV"] = 1
        df["div"] = "y"
        df = pd.concat([df, pd.Series(["k"] * n, index=df.index, name="div")], axis=1)
    elif how == "oddlabel":
        df[7] = 1.0
        df[("a", "b")] = "z"
        df[None] = 3
    elif how == "shifted":
        df["close "] = 5.0
        df[" open"] = "t"
        df["closes"] = "t"
        df["volume1"] = 7
    elif how == "allnan":
        df["nothing"] = np.nan
    return df


def jobs(tier):
    out = []
    for sp in SPECS.values():
        out.append(dict(kind="bad", ind=sp.name))
        for c in range(4):
            out.append(dict(kind="good", ind=sp.name, case=c, tier=tier))
    return out


CASES = [str.lower, str.upper, str.title, lambda s: s[0] + s[1:].upper()]


def run_job(job, r):
    sp = SPECS[job["ind"]]
    C = cls(sp.name)
    R = req(sp)
    p = sp.small[0]
    need = sp.minrows(sp.params(p))
    n = max(need, 6)
    base = W.frame(W.long("walk6")[100:100 + n], floats=True)

    def judge(arg, exp, what):
        for fn, where in ((lambda: C(arg, **p), "constructor"), (lambda: validateInputData(arg, list(R), sp.name), "validation")):
            k, res = outcome(fn)
            r.state(sp.name, where, what)
            r.execs += 1
            r.transitions += 1
            r.compared += 1 if k != "ok" else 3
            r.nontrivial += k != "ok"
            r.count(sorted(exp)[0] + "/" + where)
            if k not in exp:
                r.fail("%s:%s" % (sp.name, where), "%s: %s of %s gives %s (%s), expected %s" % (label(sp, p), where, what, k, str(res)[:120], "/".join(sorted(exp))))
                return False
        return True

    if job["kind"] == "bad":
        for k in NOTTABLES:
            if not judge(nottable(k, base), {"WrongTypeForInputParameter"}, "a non-table (%s)" % k):
                return
        for e, what in ((base.iloc[:0], "a table without rows"), (base.iloc[:, :0], "a table without columns"), (pd.DataFrame(index=pd.DatetimeIndex([])), "an empty table"),
                        (base[R].iloc[:0], "a table of the required columns without rows")):
            if not judge(e, {"ValueError"}, what):
                return
        for b in BADIDX:
            d = base.copy()
            d.index = bad_index(n, b)
            if not judge(d, {"TypeError"}, "a table with a %s index" % b):
                return
        judge(pd.DataFrame(), {"TypeError", "ValueError"}, "a default empty table")
        judge_empty = outcome(lambda: validateInputData(base.iloc[:, :0], [], sp.name))
        r.transitions += 1
        if judge_empty[0] != "ValueError":
            r.fail(sp.name + ":empty", "validation of a table without columns for no required column gives %s" % judge_empty[0])
        for c in R:
            for lab in (c, c.upper(), c.title()):
                for at in (0, base.shape[1]):
                    d = base.copy()
                    d.insert(at, lab, d[c] * 2, allow_duplicates=True)
                    if not judge(d, {"ValueError"}, "a table with the required column %s given again as %s at %d" % (c, lab, at)):
                        return
            for more in (2, 3):
                d = base.copy()
                for k in range(more):
                    d.insert((0, d.shape[1], 1)[k], (c, c.upper(), c.title())[k], d[c].iloc[:, 0] if isinstance(d[c], pd.DataFrame) else d[c], allow_duplicates=True)
                if not judge(d, {"ValueError"}, "a table with the required column %s given %d times" % (c, more + 1)):
                    return
        d = base.copy()
        d.columns = pd.MultiIndex.from_product([["X"], list(d.columns)])
        if not judge(d, {"ValueError"}, "a table with two-level labels"):
            return
        single = [tuple("ok" if j != i else h for j in range(len(R))) for i in range(len(R)) for h in ("objects", "lasttext", "delta")]
        cross = [tuple({"text": TEXTS[(k + j) % 4]}.get(x, x) for j, x in enumerate(st)) for k, st in enumerate(itertools.product(STATE, repeat=len(R)))]
        for st in single + cross:
            d = base.copy()
            for c, s in zip(R, st):
                if s == "missing":
                    del d[c]
                elif s != "ok":
                    d[c] = corrupt(d[c], s)
            what = "a table with %s" % ", ".join("%s %s" % x for x in zip(R, st))
            legal = all(s == "ok" for s in st)
            if not judge(d, {"ok"} if legal else {"ValueError"}, what):
                return
            if not legal and sum(s != "ok" for s in st) <= 2:
                d2 = d.copy()
                d2.columns = [c.upper() for c in d2.columns]
                if not judge(d2, {"ValueError"}, what + " in upper case"):
                    return
                d3 = d.copy()
                d3.index = bad_index(n, "int")
                if not judge(d3, {"ValueError", "TypeError"}, what + " and an integer index"):
                    return
                if not judge(d.iloc[:0], {"ValueError"}, what + " and no rows"):
                    return
        r.sample(indicator=sp.name, required=R)
        return
    case = CASES[job["case"]]
    orders = {"sorted": list(range(n)), "reversed": list(range(n))[::-1], "rotated": list(range(2, n)) + [0, 1], "swapped": [1, 0] + list(range(2, n)),
              "odd first": list(range(1, n, 2)) + list(range(0, n, 2)), "last first": [n - 1] + list(range(n - 1))}
    gaps = {"none": [], "first": [0], "last": [n - 1], "some": [1, 2, n - 2]}
    idxs = {"naive": base.index, "utc": base.index.tz_localize("UTC"), "intraday": pd.date_range("2001-01-01 09:30", periods=n, freq="7min", name="Date"),
            "irregular": pd.DatetimeIndex([pd.Timestamp("1969-12-30") + pd.Timedelta(days=i * i) for i in range(n)])}
    extras = EXTRAS
    seen = job["case"]
    for j, (on, o) in enumerate(orders.items()):
        for k, ex in enumerate(extras):
            for m, (gn, g) in enumerate(gaps.items()):
                if job["tier"] == "quick" and (j + k + m + job["case"]) % 2:
                    continue
                ixs = list(idxs) if job["tier"] == "thorough" else [list(idxs)[(j + k + m) % 4]]
                for ixn in ixs:
                    d = base.copy()
                    d.index = idxs[ixn]
                    for q, c in enumerate(R):
                        for z in g:
                            if gn != "some" or (z + q) % 2:
                                d.iloc[z, d.columns.get_loc(c)] = np.nan
                    truth = d[R]
                    if (j + k) % 3 == 0:
                        d = d[R].copy()
                    d = add_extra(d, ex).iloc[o]
                    d.columns = [case(c) if isinstance(c, str) else c for c in d.columns]
                    seen += 1
                    kd = KINDS[(seen + seen // len(KINDS)) % len(KINDS)]
                    d = dress(d, kd)
                    r.count("kind " + kd)
                    for fill in (True, False):
                        what = "%s rows, labels %s, extra columns '%s', gaps '%s', %s index, %s table, filling %s" % (on, [c for c in d.columns][:3], ex, gn, ixn, kd, fill)
                        kind, got = outcome(lambda: validateInputData(d, list(R), sp.name, fill_missing_values=fill))
                        r.states += 1
                        r.execs += 1
                        r.transitions += 1
                        r.compared += 1
                        r.nontrivial += 1
                        r.count("accepted/validation")
                        if kind != "ok":
                            r.fail(sp.name + ":refused", "%s: refused with %s (%s): %s" % (sp.name, kind, str(got)[:100], what))
                            return
                        exp = truth.ffill().bfill() if fill else truth
                        if sorted(map(str, got.columns)) != sorted(R) or len(got) != n or list(got.index) != list(truth.index):
                            r.fail(sp.name + ":prepared", "%s: prepared table has columns %s and %d rows %s: %s" % (sp.name, list(got.columns), len(got), "in another order" if len(got) == n else "", what))
                            return
                        if not exp.equals(got[R].astype("float64")):
                            r.fail(sp.name + ":cells", "%s: prepared cells differ: %s" % (sp.name, what))
                            return
                    if (j + k + m) % 3 == job["case"] % 3 or job["tier"] == "thorough":
                        kind, got = outcome(lambda: C(d, **p))
                        r.count("accepted/constructor")
                        r.execs += 1
                        r.states += 1
                        if kind != "ok":
                            r.fail(sp.name + ":constructor", "%s: refused with %s (%s): %s" % (sp.name, kind, str(got)[:100], what))
                            return


def finish(tier, tot):
    return [] if tot.counts.get("accepted/validation", 0) > 8000 and tot.counts.get("ValueError/constructor", 0) > 3000 else ["too few cases: %s" % tot.counts]
