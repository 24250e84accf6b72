"""C05: every presentation of the same bars gives the same table, signal and simulation."""
import itertools
from .env import pd, np, cls, no_plot
from .obs import diff_table, diff_sim, simulate
from .specs import SPECS
from .tables import label
from .p_c02 import configs
from . import worlds as W

RULE = "table, signal and simulation of every presentation equal those of the canonical one (lower case, sorted, float64, exactly the required columns)"
BOUNDS = {
    "quick": "all column orders (up to 5! with extras), 12 row orders (all 24 of 4 rows for short indicators), 9 storage types, 6 label cases, 5 sets of extra columns, 8 date indexes, one at a time and in 12 combinations, per indicator, 2 bar series",
    "thorough": "the same over 5 series and all listed parameter sets, all row orders of 5 rows, all pairs of row order x column order x storage type",
}
CHUNK = 1
CASES = {"upper": str.upper, "title": str.title, "first": lambda s: s[0].upper() + s[1:], "last": lambda s: s[:-1] + s[-1].upper(),
         "alt": lambda s: "".join(ch.upper() if i % 2 else ch for i, ch in enumerate(s)), "lower": str.lower}


def whole(bars, vmax):
    return [(o * 4, h * 4, l * 4, c * 4, v) for o, h, l, c, v in bars if v <= vmax and h <= 60]


STORE = {"int64": 1 << 40, "int32": 1 << 30, "uint32": 1 << 30, "uint64": 1 << 40, "int16": 30000, "uint16": 60000, "uint8": 255,
         "float32": 1 << 20, "float64": 1 << 40,
         "Int64": 1 << 40, "UInt16": 60000, "Float64": 1 << 40, "Sparse[float64]": 1 << 40, "longdouble": 1 << 40}


def indexes(n):
    d = pd.date_range
    out = {
        "weekly": d("1999-01-04", periods=n, freq="W"),
        "hourly": d("2001-01-01 09:00", periods=n, freq="h"),
        "minutes": d("2001-01-01 09:30", periods=n, freq="min"),
        "nanos": pd.DatetimeIndex(np.arange(n, dtype="int64") * 7 + 10 ** 18),
        "old": d("1931-05-05", periods=n, freq="D"),
        "tz": d("2001-03-20", periods=n, freq="D", tz="Europe/Athens"),
        "tz_hours": d("2001-03-24 20:00", periods=n, freq="h", tz="US/Eastern"),
        # the hour that the clock repeats in autumn, west and east of Greenwich
        "fold_west": d("2001-10-28 00:15", periods=n, freq="20min", tz="US/Eastern"),
        "fold_east": d("2001-10-28 00:15", periods=n, freq="20min", tz="Europe/Athens") + pd.Timedelta(hours=1),
        "business": d("2020-02-26", periods=n, freq="B"),
        "irregular": pd.DatetimeIndex([pd.Timestamp("2010-01-01") + pd.Timedelta(days=int(i * i), hours=i % 24) for i in range(n)]),
        "named": pd.DatetimeIndex(d("2001-01-01", periods=n, freq="D"), name="Date"),
    }
    try:
        out["seconds_unit"] = d("2001-01-01", periods=n, freq="D").as_unit("s")
        out["ms_unit"] = d("1960-01-01", periods=n, freq="h").as_unit("ms")
    except AttributeError:
        pass
    return out


def row_orders(n):
    idx = list(range(n))
    out = {"reversed": idx[::-1], "rot1": idx[1:] + idx[:1], "rot_half": idx[n // 2:] + idx[: n // 2], "swap_last": idx[:-2] + [idx[-1], idx[-2]],
           "swap_first": [1, 0] + idx[2:], "odd_even": idx[1::2] + idx[::2], "even_odd_rev": idx[::2] + idx[1::2][::-1],
           "last_first": [n - 1] + idx[:-1], "first_last": idx[1:] + [0], "mid_swap": idx[: n // 2 - 1] + [idx[n // 2], idx[n // 2 - 1]] + idx[n // 2 + 1:]}
    for a in (3, 7):
        st = next(k for k in range(a, a + n + 2) if np.gcd(k, n) == 1)
        out["stride%d" % st] = [(i * st + a) % n for i in range(n)]
    return out


def extras(df, kind):
    df = df.copy()
    n = len(df)
    num = lambda k: np.arange(n) * 1.75 + k
    if kind == "before":
        for k, c in enumerate(["Adj Close", "turnover"]):
            df.insert(0, c, num(k))
    elif kind == "between":
        df.insert(1, "zzz", num(1))
        df.insert(len(df.columns) - 1, "a_first", num(2)[::-1])
    elif kind == "all5":
        for k, c in enumerate(["volume", "low", "high", "close", "open"]):
            if c not in df.columns:
                df.insert(0, c, num(30 + k).astype("int64"))
    elif kind == "text":
        df["name"] = ["x"] * n
        df["when"] = pd.Timestamp("2001-01-01")
        df["flag"] = True
        df["none"] = None
    elif kind == "nan":
        df.insert(0, "gaps", np.nan)
        df[5] = 1.0
    return df


def jobs(tier):
    out = []
    for sp in SPECS.values():
        cf = configs(sp)
        for p in (cf[:1] + cf[-1:] if tier == "quick" else cf):
            for s in (("bars5", "walk6") if tier == "quick" else ("bars5", "walk6", "bars4", "regimes", "ordinary")):
                if tier == "quick" and p is not cf[0] and s != "bars5":
                    continue
                out.append(dict(ind=sp.name, p=p, series=s, perms=4 if tier == "quick" else 5, pairs=tier != "quick"))
    for nm in ("MovingAverage", "OnBalanceVolume", "MedianPrice"):
        out.append(dict(ind=nm, p={}, big=2400))
    out.sort(key=lambda j: -SPECS[j["ind"]].minrows(SPECS[j["ind"]].params(j["p"])))
    return out


def run_big(job, r):
    """Rows out of order only deep inside, or only at one end, of a table of thousands of rows."""
    sp, p, n = SPECS[job["ind"]], job["p"], job["big"]
    base = W.frame(W.long("ordinary6")[:n], cols=list(sp.cols), floats=True)
    n = len(base)
    ref = cls(sp.name)(base, **p)
    ref_t, ref_s = ref.getTiData(), ref.getTiSignal()
    idx = list(range(n))
    orders = {"swap at %d" % a: idx[:a] + [a + 1, a] + idx[a + 2:] for a in (0, 128, 256, 300, 512, 600, 1024, 1500, 2048, n - 2)}
    orders["last first"] = idx[-1:] + idx[:-1]
    orders["first last"] = idx[1:] + idx[:1]
    orders["years reversed"] = [k for a in range(0, n, 365) for k in idx[a: a + 365][::-1]]
    orders["year blocks newest first"] = [k for a in range(0, n, 365)[::-1] for k in idx[a: a + 365]]
    orders["odd even"] = idx[::2] + idx[1::2]
    orders["reversed"] = idx[::-1]
    for nm, o in orders.items():
        ind = cls(sp.name)(base.iloc[o].copy(), **p)
        r.execs += 1
        t = ind.getTiData()
        r.states += 1
        r.transitions += n
        r.compared += n
        r.nontrivial += n
        if not t.equals(ref_t) or ind.getTiSignal() != ref_s:
            r.fail(sp.name + ":rows", "%s: rows %s of %d: the table or the signal differs from that of the ordered rows" % (label(sp, p), nm, n))
            return
    r.sample(indicator=label(sp, p), rows=n, orders=len(orders))


def run_job(job, r):
    if "big" in job:
        return run_big(job, r)
    sp, p = SPECS[job["ind"]], job["p"]
    need = sp.minrows(sp.params(p))
    n = max(need + 6, 12)
    src = (W.long(job["series"])[60:] + W.long("bars4")[20:])
    bars = whole([b for b in src], 40000)[:n] if job["series"] != "ordinary" else [tuple(int(round(x * 4)) for x in b[:4]) + (b[4] % 60000,) for b in src[:n]]
    cols = list(sp.cols)
    canon = W.frame(bars, cols=sorted(cols), floats=True)
    closes = W.frame(bars, cols=["close"])
    ref_t, ref_s, ref_m = None, None, None
    sims = need <= 20

    def observe(df, close, sim):
        ind = cls(sp.name)(df, **p)
        r.execs += 1
        return ind.getTiData(), ind.getTiSignal(), simulate(ind, close, max_exposure=300.0) if sim else None
    ref_t, ref_s, ref_m = observe(canon, closes, True)

    def check(what, df, close=None, sim=None, index=False):
        """index: the dates themselves differ."""
        sim = sims if sim is None else sim
        try:
            t, s, m = observe(df, closes if close is None else close, sim)
        except Exception as e:
            r.fail(sp.name + ":" + what.split(" ")[0], "%s: %s is refused: %s %s" % (label(sp, p), what, type(e).__name__, str(e)[:150]))
            return False
        r.states += 1
        r.transitions += len(df)
        r.compared += t.size + 1
        r.nontrivial += int(t.notna().sum().sum())
        d = diff_table(t, ref_t, sp.eps, index=not index)
        if not d and s != ref_s:
            d = "signal %s instead of %s" % (s, ref_s)
        if not d and sim:
            d = diff_table(m[0], ref_m[0], 1e-9, index=not index)
            if not d and any(abs(float(m[1][k]) - float(ref_m[1][k])) > 1e-9 for k in ref_m[1]):
                d = "simulation statistics %s instead of %s" % (m[1], ref_m[1])
        if not d and index:
            want = list(df.index.sort_values())[: len(t)]
            if list(t.index) != want:
                d = "table is not dated with the input dates in ascending order"
        if d:
            r.fail(sp.name + ":" + what.split(" ")[0], "%s: %s: %s" % (label(sp, p), what, d), bars=bars)
        return not d

    base = canon[cols]
    # column orders, alone and with all five price columns present
    wide = W.frame(bars, floats=True)
    for perm in itertools.permutations(cols):
        if not check("columns %s" % (perm,), base[list(perm)], sim=False):
            return
    perms5 = list(itertools.permutations(wide.columns))
    for perm in perms5[:: 1 if job["pairs"] else 5]:
        if not check("columns %s" % (perm,), wide[list(perm)], sim=False):
            return
    for perm in [cols[::-1], cols[1:] + cols[:1]]:
        if not check("columns %s" % (perm,), base[perm], sim=True):
            return
    # row orders
    ro = row_orders(n)
    for nm, o in ro.items():
        if not check("rows %s" % nm, base.iloc[o].copy(), sim=sims or nm == "reversed", close=closes.iloc[ro["odd_even"]].copy()):
            return
    k = job["perms"]
    for o in itertools.permutations(range(k)):
        for off in (0, n - k):
            idx = list(range(n))
            idx[off: off + k] = [off + j for j in o]
            if not check("rows block %s at %d" % (o, off), base.iloc[idx].copy(), sim=False):
                return
    # label case
    for nm, f in CASES.items():
        c = closes.copy()
        c.columns = [f(x) for x in c.columns]
        if not check("case %s" % nm, base.rename(columns=f), close=c):
            return
    # extra columns
    for nm in ("before", "between", "all5", "text", "nan"):
        if not check("extra %s" % nm, extras(base, nm), close=extras(closes, nm)):
            return
    # storage
    top = max(max(b) for b in bars)
    for st, lim in STORE.items():
        sub = {c: st for c in cols if canon[c].max() <= lim}
        if not check("storage %s" % (sub,), base.astype(sub), close=closes.astype(st) if closes["close"].max() <= lim else None):
            return
        for c in sub:
            if not check("storage %s of %s" % (st, c), base.astype({c: st}), sim=False):
                return
    # kinds of table
    class Sub(pd.DataFrame):
        pass
    cat, named, fort, keep = base.copy(), base.copy(), base.copy(), base.to_numpy(copy=True)
    cat.columns = pd.CategoricalIndex(cat.columns)
    named.columns.name = "field"
    named.attrs["source"] = "x"
    keep.setflags(write=False)
    tables = {"subclass": Sub(base), "categorical labels": cat, "named labels": named, "column-major": pd.DataFrame(np.asfortranarray(base.to_numpy()), columns=base.columns, index=base.index),
              "read-only": pd.DataFrame(keep, columns=base.columns, index=base.index, copy=False),
              "built by column": pd.concat([base[c] for c in base.columns], axis=1)}
    for nm, t in tables.items():
        if not check("table %s" % nm, t, close=Sub(closes) if nm == "subclass" else None):
            return
    for nm in cols + ["index", "level_0", "Date", 0]:
        for o in (ro["reversed"], list(range(n))):
            if not check("dates named %s" % nm, base.rename_axis(nm).iloc[o].copy(), close=closes.rename_axis(nm), sim=False):
                return
    # dates
    for nm, ix in indexes(n).items():
        if not check("dates %s" % nm, base.set_axis(ix, axis=0), close=closes.set_axis(ix, axis=0), index=True):
            return
        df = base.set_axis(ix, axis=0).iloc[ro["odd_even"]].copy()
        if not check("dates %s shuffled" % nm, df, close=closes.set_axis(ix, axis=0), index=True, sim=False):
            return
    # combinations
    combos = list(itertools.product(("odd_even", "reversed"), ("int32", "uint16", "float32"), ("upper", "alt")))
    if job["pairs"]:
        combos = list(itertools.product(ro, [s for s in STORE if STORE[s] > 255], CASES))
    for i, (o, st, cs) in enumerate(combos):
        df = base[cols[::-1] if i % 2 else cols[1:] + cols[:1]].astype({c: st for c in cols if canon[c].max() <= STORE[st]})
        df = extras(df, ("between", "text", "all5")[i % 3]).iloc[ro[o]].copy()
        df.columns = [CASES[cs](c) if isinstance(c, str) else c for c in df.columns]
        if not check("combination %s %s %s" % (o, st, cs), df, sim=False):
            return
    # large whole numbers: sums leave the range of narrow types, products their precision
    k = max(1, 29000 // max(b[1] for b in bars))
    bars = [(int(o) * k + 1, int(h) * k + 3, int(l) * k - 1, int(c) * k + 1, int(1048573 - 1009 * (v % 512))) for o, h, l, c, v in bars]
    base = W.frame(bars, cols=cols, floats=True)
    closes = W.frame(bars, cols=["close"])
    ref_t, ref_s, ref_m = observe(base, closes, True)
    for st, lim in STORE.items():
        sub = {c: st for c in cols if base[c].max() <= lim}
        if sub and not check("large numbers, storage %s" % (sub,), base.astype(sub), close=closes.astype(st) if closes["close"].max() <= lim else None):
            return
    # rows out of order far from either end of a longer history
    bars = ([b for b in (W.long("ordinary") if job["series"] == "walk6" else W.long("walk2") + W.long("bars5"))])[: n + 150]
    n = len(bars)
    base = W.frame(bars, cols=cols, floats=True)
    ind = cls(sp.name)(base, **p)
    ref_t, ref_s = ind.getTiData(), ind.getTiSignal()
    idx = list(range(n))
    late = {"swap at %d" % a: idx[:a] + [a + 1, a] + idx[a + 2:] for a in (70, n // 2, n - 30)}
    late["block at 100"] = idx[:100] + idx[104:107] + idx[100:104] + idx[107:]
    late["halves"] = idx[n // 2:] + idx[: n // 2]
    late["one late"] = idx[:40] + idx[41: n - 10] + [40] + idx[n - 10:]
    late["one early"] = idx[:40] + [n - 20] + idx[40: n - 20] + idx[n - 19:]
    late["weeks reversed"] = [k for a in range(0, n, 7) for k in idx[a: a + 7][::-1]]
    for nm, o in late.items():
        if not check("rows %s of %d" % (nm, n), base.iloc[o].copy(), sim=False):
            return
    r.sample(indicator=label(sp, p), rows=n, series=job["series"])


def finish(tier, tot):
    return [] if tot.nontrivial > 50000 else ["only %d comparisons" % tot.nontrivial]
