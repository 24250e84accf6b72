"""C06: missing cells are filled forward, then backward, per column in date order, and only then."""
import itertools
from .env import pd, np, cls, fillMissingValues, validateInputData, TradingSimulation
from .obs import diff_table, Frozen, simulate
from .specs import SPECS
from .tables import label
from .p_c02 import configs
from .p_c05 import row_orders
from . import worlds as W

RULE = "filled tables equal a plain-Python forward-then-backward fill; an indicator on gappy data equals the indicator on the filled data; with filling off the rows before the first gap equal those of complete data"
BOUNDS = {
    "quick": "all 2^10 masks of 5 rows x 2 columns and all 2^9 of 3 x 3 x 4 row orders for the fill itself; per indicator 2 parameter sets, all masks of 7 watched rows in one column, all masks of 2 watched rows in every column, whole columns and rows, "
             "sorted and unsorted, filling on and off",
    "thorough": "all 2^14 masks of 7 x 2, 2^12 of 4 x 3; per indicator all masks of 9 watched rows, 3 rows x all columns, two series",
}
CHUNK = 1


def ref_fill(rows, mask):
    """rows: list of columns (date order); mask: set of (row, col) missing."""
    out = []
    for j, col in enumerate(rows):
        x, last = [], None
        for i, v in enumerate(col):
            if (i, j) not in mask:
                last = v
            x.append(last)
        nxt = None
        for i in range(len(x) - 1, -1, -1):
            if (i, j) not in mask:
                nxt = col[i]
            if x[i] is None:
                x[i] = nxt
        out.append([float("nan") if v is None else v for v in x])
    return out


def jobs(tier):
    out = []
    shapes = [(5, 2), (3, 3), (2, 5)] if tier == "quick" else [(7, 2), (4, 3), (2, 6), (3, 5)]
    for n, m in shapes:
        for o in range(4):
            out.append(dict(kind="fill", n=n, m=m, order=o))
    for o in range(4):                           # infinite, zero and negative cells are present, not missing
        out.append(dict(kind="fill", n=5 if tier == "quick" else 6, m=2, order=o, odd=True))
        out.append(dict(kind="fill", n=5 if tier == "quick" else 6, m=2, order=o, odd=True, volume=True))
    for sp in SPECS.values():
        cf = configs(sp)
        for p in cf[:1] + cf[-1:] if len(cf) > 1 else cf[:1]:
            for s in (("walk6",) if tier == "quick" else ("walk6", "bars4")):
                out.append(dict(kind="ind", ind=sp.name, p=p, series=s, watch=7 if tier == "quick" else 9, both=2 if tier == "quick" else 3))
    out.append(dict(kind="sim", watch=5 if tier == "quick" else 8))
    out.sort(key=lambda j: (j["kind"] != "fill", -(SPECS[j["ind"]].minrows(SPECS[j["ind"]].params(j["p"])) if "ind" in j else 99)))
    return out


def dates(n, kind):
    """Daily, minutes apart, years apart (and before 1970), or in two bursts."""
    if kind % 4 == 0:
        return pd.date_range("2001-01-01", periods=n, freq="D")
    if kind % 4 == 1:
        return pd.date_range("2001-01-01 09:30", periods=n, freq="min")
    if kind % 4 == 2:
        return pd.DatetimeIndex([pd.Timestamp("1950-06-30") + pd.Timedelta(days=700 * i + i * i) for i in range(n)])
    return pd.DatetimeIndex([pd.Timestamp("2001-01-01") + pd.Timedelta(days=i + (4000 if i > n // 2 else 0), hours=i % 2) for i in range(n)])


def mkframe(cols, names, mask, index, order):
    d = {}
    for j, c in enumerate(names):
        x = np.array(cols[j], dtype="float64")
        for (i, k) in mask:
            if k == j:
                x[i] = np.nan
        d[c] = x
    return pd.DataFrame(d, index=index).iloc[order]


def run_job(job, r):
    if job["kind"] == "fill":
        n, m = job["n"], job["m"]
        names = ["close", "high", "note", "open", "volume", "low"][:m] if not job.get("volume") else ["volume", "close"]
        cols = [[2.0 + 3 * i + 0.25 * j + (i % 2) for i in range(n)] for j in range(m)]
        if job.get("odd"):
            pool = [float("inf"), 0.0, -1.0, -float("inf"), 0.0, 3.0, 1e300]
            cols = [[pool[(i + 3 * j) % 7] for i in range(n)] for j in range(m)]
        idx = dates(n, job["order"] + bool(job.get("volume")))
        order = [list(range(n)), list(range(n))[::-1], [(i * 2 + 1) % n for i in range(n)] if n % 2 else ([1, 0, 3, 2] + list(range(4, n)))[:n], list(range(1, n)) + [0]][job["order"]]
        allc = [(i, j) for i in range(n) for j in range(m)]
        for bits in range(1 << len(allc)):
            mask = {c for k, c in enumerate(allc) if bits >> k & 1}
            df = mkframe(cols, names, mask, idx, order)
            exp = ref_fill(cols, mask)
            snap = Frozen(df) if bits % 64 == 5 else None
            for fn in ("fill", "again", "validate", "off"):
                if fn == "fill":
                    got = first = fillMissingValues(df)
                elif fn == "again":
                    got = fillMissingValues(first)
                elif fn == "validate":
                    got = validateInputData(df, names, "X", **{} if len(mask) % 2 else {"fill_missing_values": True})
                else:
                    if bits % 8 != 3:
                        continue
                    got = validateInputData(df, names, "X", fill_missing_values=False)
                r.transitions += 1
                r.execs += 1
                want = exp if fn != "off" else [[float("nan") if (i, j) in mask else v for i, v in enumerate(c)] for j, c in enumerate(cols)]
                e = pd.DataFrame(dict(zip(names, want)), index=idx)
                r.compared += n * m
                r.nontrivial += len(mask)
                g = got[names].to_numpy(dtype=float)
                w = e.to_numpy(dtype=float)
                if sorted(map(str, got.columns)) != sorted(names) or list(got.index) != list(idx) or not ((g == w) | ((g != g) & (w != w))).all():
                    r.fail("fill:" + fn, "%s of mask %s in row order %s gives %s (dates %s), expected %s" % (
                        fn, sorted(mask), order, got.to_dict("list"), [str(x.date()) for x in got.index], e.to_dict("list")))
                    return
            if snap and snap.diff():
                r.fail("fill:input", "fillMissingValues changed its argument: " + snap.diff())
                return
            r.states += 1
        r.sample(shape=[n, m], order=order, masks=1 << (n * m))
        return
    if job["kind"] == "sim":
        return close_gaps(job, r)
    sp, p = SPECS[job["ind"]], job["p"]
    need = sp.minrows(sp.params(p))
    n = max(need + 4, 9)
    bars = (W.long(job["series"])[150:] + W.long("bars4"))[:n]
    full = W.frame(bars, cols=sp.cols, floats=True, index=dates(n, list(SPECS).index(sp.name)))
    if "volume" in sp.cols:
        full.iloc[n // 3, sp.cols.index("volume")] = 0.0
    cols = [full[c].tolist() for c in sp.cols]
    k = job["watch"]
    rows = sorted({0, 1, n // 2, n // 2 + 1, n - 2, n - 1, 2, n - 3, need - 1}, key=[0, n - 1, 1, n // 2, n // 2 + 1, n - 2, 2, n - 3, need - 1].index)[:k]
    masks = []
    for j in range(len(cols)):
        for bits in range(1, 1 << len(rows)):
            if job["watch"] <= 7 and j != (list(SPECS).index(sp.name) + 1) % len(cols) and bits % 7:
                continue
            masks.append({(rows[b], j) for b in range(len(rows)) if bits >> b & 1})
    cells = [(i, j) for i in ([0, n - 1] if job["both"] == 2 else [0, n // 2, n - 1]) for j in range(len(cols))]
    for bits in range(1, 1 << len(cells)):
        masks.append({c for b, c in enumerate(cells) if bits >> b & 1})
    for j in range(len(cols)):
        masks.append({(i, j) for i in range(n)})
        masks.append({(i, j) for i in range(n) if i < n - 1})
        masks.append({(i, j) for i in range(n) if i > 0})
        masks.append({(i, j) for i in range(n) if i != n // 2})
    for i in (0, n // 2, n - 1):
        masks.append({(i, j) for j in range(len(cols))})
    ro = row_orders(n)
    ident = list(range(n))

    def build(df, fill=True, said=True):
        try:
            ind = cls(sp.name)(df, **dict(p, fill_missing_values=fill) if said else p)
            r.execs += 1
            return ind.getTiData(), ind.getTiSignal() if fill else None
        except Exception as e:
            return type(e).__name__, str(e)

    complete = build(full)
    for q, mask in enumerate(masks):
        order = ident if q % 3 else ro["odd_even"]
        gappy = mkframe(cols, sp.cols, mask, full.index, order)
        filled = pd.DataFrame(dict(zip(sp.cols, ref_fill(cols, mask))), index=full.index)
        a, b = build(gappy, said=bool(q % 2)), build(filled)      # filling is on unless told otherwise
        r.states += 1
        r.transitions += n
        r.nontrivial += len(mask)
        d = None
        if isinstance(a[0], str) or isinstance(b[0], str):
            r.count("refused")
            d = None if isinstance(a[0], str) and isinstance(b[0], str) and a[0] == b[0] else "%s instead of %s" % (a[0] if isinstance(a[0], str) else "a table", b[0] if isinstance(b[0], str) else "a table")
        else:
            r.compared += a[0].size
            d = diff_table(a[0], b[0], sp.eps)
            if not d and a[1] != b[1]:
                d = "signal %s instead of %s" % (a[1], b[1])
        if d:
            r.fail(sp.name + ":filled", "%s with missing cells %s: differs from the pre-filled data: %s" % (label(sp, p), sorted(mask)[:12], d), bars=bars)
            return
        if sp.causal and q % 2 == 0:
            lead = min(i for i, _ in mask)
            if lead == 0:
                continue
            off = build(gappy, fill=False)
            if isinstance(off[0], str):
                r.count("off_refused")
                continue
            r.compared += lead * len(off[0].columns)
            r.count("off_rows", lead)
            d = diff_table(off[0].iloc[:lead], complete[0].iloc[:lead], sp.eps)
            if d:
                r.fail(sp.name + ":off", "%s with filling off and missing cells %s: rows before the first gap differ from complete data: %s" % (label(sp, p), sorted(mask)[:12], d), bars=bars)
                return


def close_gaps(job, r):
    """Close prices given to a simulation are filled the same way."""
    n = 10
    bars = W.long("walk6")[150:150 + n]
    df = W.frame(bars, cols=["close"])
    c = [df["close"].tolist()]
    rows = [0, n - 1, 1, 4, 5, 8, 2, 6][: job["watch"]]
    ro = row_orders(n)
    sigs = [("buy", -1), ("sell", 1), ("hold", 0)]
    for bits in range(1 << len(rows)):
        mask = {(rows[b], 0) for b in range(len(rows)) if bits >> b & 1}
        for o in ("odd_even", "reversed"):
            out = []
            for fr in (mkframe(c, ["close"], mask, df.index, ro[o]), pd.DataFrame({"close": ref_fill(c, mask)[0]}, index=df.index)):
                s = TradingSimulation(input_data_index=df.index, close_values=fr)
                for i in range(n):
                    s.runSimulationRound(i, sigs[(i * i) % 3])
                out.append(s.closeSimulation())
                r.execs += 1
            r.states += 1
            r.transitions += n
            r.compared += 7 * n
            r.nontrivial += len(mask)
            d = diff_table(out[0][0], out[1][0])
            if d:
                r.fail("sim:gaps", "simulation with close prices missing at %s differs from the filled prices: %s" % (sorted(mask), d))
                return


def finish(tier, tot):
    return [m for m, bad in (("few missing cells", tot.nontrivial < 20000), ("no rows before a gap", tot.counts.get("off_rows", 0) < 1000)) if bad]
