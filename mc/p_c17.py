"""C17: value lookups against the published table."""
import datetime as dt
from .env import pd, np
from .specs import SPECS
from .tables import build, label
from .p_c02 import configs
from . import worlds as W

RULE = "getTiValue(x) is the list of the table's row for the date x, the last row without x, and None for every x that is not a date of the table"
BOUNDS = {
    "quick": "every indicator x 5 date indexes (daily, business days, 7-minute, irregular around 1970 and 2038, UTC) x every row of the table and every neighbouring instant (1 ns, 1 min, 1 day before and after) x up to 10 date forms, 21 non-dates, "
             "each also after the other queries; minimum length and minimum + 8 rows",
    "thorough": "the same for 3 parameter sets, minimum + 40 rows",
}


def indexes(n):
    return {
        "daily": pd.date_range("2001-01-01", periods=n, freq="D"),
        "business": pd.bdate_range("2019-12-20", periods=n, name="Date"),
        "minutes": pd.date_range("2001-01-01 09:30", periods=n, freq="7min"),
        "irregular": pd.DatetimeIndex([pd.Timestamp("1969-12-25 12:00") + pd.Timedelta(days=int(i * i * 25), seconds=i) for i in range(n)]) if n < 60 else pd.date_range("2037-11-01", periods=n),
        "utc": pd.date_range("2001-01-01", periods=n, freq="D", tz="UTC"),
    }


def forms(ts):
    """Forms of one instant that denote it exactly."""
    out = {"timestamp": ts, "iso": ts.isoformat(), "str": str(ts)}
    if ts.nanosecond == 0:
        out["datetime"] = ts.to_pydatetime()
        out["datetime64"] = ts.to_datetime64() if ts.tz is None else ts
        if ts.tz is None:
            out["slashes"] = ts.strftime("%Y/%m/%d %H:%M:%S")
            out["compact"] = ts.strftime("%Y%m%d %H:%M:%S")
            out["words"] = ts.strftime("%d %b %Y %H:%M:%S")
            if ts == ts.normalize():
                out["day"] = ts.strftime("%Y-%m-%d")
                out["dayslashes"] = ts.strftime("%Y/%m/%d")
                out["date"] = ts.date()
    return out


def nodates(ti):
    d = ti.index[len(ti) // 2] if len(ti) else pd.Timestamp("2001-01-03")
    c = str(ti.columns[0])
    return {"word": "no date", "empty": "", "column": c, "nat": pd.NaT, "nan": float("nan"), "list": [d], "strlist": [str(d)], "tuple": (d, d), "array": np.array([str(d)]),
            "series": pd.Series([d]), "index": ti.index[:2], "dict": {"year": [d.year], "month": [d.month], "day": [d.day]}, "object": object(), "type": str, "bool": True,
            "emptylist": [], "slice": slice(None), "badmonth": "2001-13-45", "frame": pd.DataFrame({"year": [d.year], "month": [d.month], "day": [d.day]}), "bytes": b"abc", "ellipsis": Ellipsis,
            "set": {d}, "timedelta": pd.Timedelta(days=1), "complex": 1j}


def jobs(tier):
    out = []
    for sp in SPECS.values():
        cf = configs(sp)
        for p in (cf[:1] if tier == "quick" else cf[:3]):
            for ix in ("daily", "business", "minutes", "irregular", "utc"):
                for extra in ((8,) if tier == "quick" else (0, 40)):
                    out.append(dict(ind=sp.name, p=p, ix=ix, extra=extra))
                if tier == "quick" and ix == "daily":
                    out.append(dict(ind=sp.name, p=p, ix=ix, extra=0))
    return out


def eqrow(a, b):
    return isinstance(a, list) and len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))


def run_job(job, r):
    sp, p = SPECS[job["ind"]], job["p"]
    n = max(2, sp.minrows(sp.params(p))) + job["extra"]
    df = W.frame(W.long("walk6")[60:60 + n], index=indexes(n)[job["ix"]])
    ind = build(sp, p, df)
    ti = ind.getTiData()
    rows = {ts: [ti.iloc[k, j] for j in range(ti.shape[1])] for k, ts in enumerate(ti.index)}
    if len(ti) != len(rows):
        r.fail(sp.name + ":dates", "%s: %d rows for %d dates" % (label(sp, p), len(ti), len(rows)))
        return

    def ask(x, exp, what):
        r.states += 1
        r.execs += 1
        r.transitions += 1
        r.compared += 1
        try:
            got = ind.getTiValue(x) if what != "no date" else ind.getTiValue()
        except Exception as e:
            r.fail(sp.name + ":raises", "%s: value of %s (%r) raises %s: %s" % (label(sp, p), what, x, type(e).__name__, e))
            return False
        if exp is None:
            if got is None:
                r.count("none")
                return True
        elif eqrow(got, exp):
            r.nontrivial += 1
            r.count("row")
            return True
        r.fail(sp.name + ":lookup", "%s: value of %s (%r) is %r instead of %r [%s index]" % (label(sp, p), what, x, got, exp, job["ix"]))
        return False

    last = [ti.iloc[-1, j] for j in range(ti.shape[1])] if len(ti) else None
    for rnd in range(2):
        if not ask(None, last, "no date") or not ask(None, last, "None"):
            return
        ks = range(len(ti)) if len(ti) < 40 or rnd else list(range(0, 12)) + list(range(len(ti) // 2, len(ti) // 2 + 6)) + list(range(len(ti) - 12, len(ti)))
        if rnd:
            ks = list(range(0, len(ti), 1 + len(ti) // 10))
        for k in ks:
            ts = ti.index[k]
            for f, x in forms(ts).items():
                if not ask(x, rows[ts], "row %d as %s" % (k, f)):
                    return
            if rnd:
                continue
            for delta in (1, 60 * 10 ** 9, 86400 * 10 ** 9, 3600 * 10 ** 9):
                for sgn in (1, -1):
                    t2 = ts + sgn * pd.Timedelta(delta, unit="ns")
                    fs = forms(t2)
                    for f in (("timestamp", "str") if delta != 86400 * 10 ** 9 else fs):
                        if not ask(fs[f], rows.get(t2), "%s %+d ns from row %d as %s" % (t2, sgn * delta, k, f)):
                            return
        for f, x in nodates(ti).items():
            if not ask(x, None, "the non-date '%s'" % f):
                return
        # a day, month, year or hour is the instant it begins with, not everything in it; a date without zone is not a date of a table with one
        seen = []
        for k in ks:
            ts = ti.index[k]
            for x in (ts.strftime("%Y-%m-%d"), ts.strftime("%Y/%m/%d"), ts.strftime("%Y-%m"), ts.strftime("%Y"), ts.strftime("%Y-%m-%d %H"), ts.strftime("%Y-%m-%d %H:%M"), ts.date()):
                if x in seen:
                    continue
                seen.append(x)
                exact = None if ts.tz is not None else rows.get(pd.Timestamp(x if isinstance(x, dt.date) else {4: x + "-01-01", 7: x + "-01", 13: x + ":00"}.get(len(x), x)))
                if isinstance(x, str) and len(x) in (4, 7, 13) and exact:
                    continue
                if not ask(x, exact, "%r, the beginning of a day, hour, month or year," % (x,)):
                    return
            other = ts.tz_localize(None) if ts.tz is not None else ts.tz_localize("UTC")
            for f, x in forms(other).items():
                if not ask(x, None, "%s %s its zone as %s" % (ts, "without" if ts.tz is not None else "with", f)):
                    return
        for x, what in ((pd.Timestamp("1700-01-01"), "a far past date"), (pd.Timestamp("2200-01-01"), "a far future date"), ("2262-12-31", "an out-of-range date"), (dt.date(9999, 1, 1), "the year 9999")):
            if not ask(x, None, what):
                return
        if len(df) > len(ti) and not ask(df.index[-1], None, "an input date without a row"):
            return
        ind.getTiSignal()
        ind.getTiData().iloc[:, :] = -1.0
    r.sample(indicator=label(sp, p), index=job["ix"], rows=len(ti))


def finish(tier, tot):
    return [] if tot.counts.get("row", 0) > 20000 and tot.counts.get("none", 0) > 20000 else ["too few lookups: %s" % tot.counts]
