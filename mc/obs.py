"""Observations of indicator objects as plain comparable values."""
import math
from .env import pd, np, plt, no_plot
from .core import same


def cells(df):
    """Frame -> (labels, index values, columns of cell values)."""
    return ([c for c in df.columns], list(df.index), [list(df.iloc[:, k]) for k in range(df.shape[1])])


def eq_val(a, b, tol=0.0):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if a is pd.NA or b is pd.NA:
        return a is b
    if a is None or b is None or a is pd.NaT or b is pd.NaT:
        return a is b or (a is None and b != b) or (b is None and a != a)
    try:
        x, y = float(a), float(b)
    except (TypeError, ValueError):
        return a == b
    if tol == 0.0:
        return x == y or (x != x and y != y)
    return same(x, y, tol)


def on_grid(x, step):
    """x is a multiple of the published rounding step (1e-4, 1e-10)."""
    k = round(-math.log10(step))
    return math.isfinite(x) and round(x, k) == x


def eq_grid(a, b, eps):
    """Equal, or both rounded and one rounding step apart (a tie decided by float noise)."""
    return eq_val(a, b, 1e-9) or (eq_val(a, b, eps) and on_grid(a, eps) and on_grid(b, eps))


def diff_table(got, exp, tol=0.0, rows=None, index=True, grid=False):
    """None or the first difference of two frames (the first `rows` rows of both)."""
    if [str(c) for c in got.columns] != [str(c) for c in exp.columns]:
        return "columns %s instead of %s" % (list(got.columns), list(exp.columns))
    n = rows if rows is not None else len(exp)
    if (rows is None and len(got) != len(exp)) or len(got) < n:
        return "%d rows instead of %d" % (len(got), len(exp))
    if index:
        for k in range(n):
            if got.index[k] != exp.index[k]:
                return "row %d is dated %s instead of %s" % (k, got.index[k], exp.index[k])
    for j, c in enumerate(exp.columns):
        g, e = got.iloc[:n, j].tolist(), exp.iloc[:n, j].tolist()
        for k in range(n):
            if not (eq_grid if grid else eq_val)(g[k], e[k], tol):
                return "column %s row %d is %r instead of %r" % (c, k, g[k], e[k])
    return None


def diff_stats(g, e, tol=0.0):
    if set(g) != set(e):
        return "statistics %s instead of %s" % (sorted(g), sorted(e))
    for k in e:
        if not eq_val(g[k], e[k], tol):
            return "statistic %s is %r instead of %r" % (k, g[k], e[k])
    return None


def diff_sim(g, e, tol=0.0):
    return diff_table(g[0], e[0], tol) or diff_stats(g[1], e[1], tol)


def simulate(ind, close, **kw):
    with no_plot():
        a, b, _ = ind.getTiSimulation(close, **kw)
    return a, b


class Frozen:
    """Deep snapshot of a caller's frame, to be compared with the frame later."""

    def __init__(self, df):
        self.obj = df
        self.cols = list(df.columns)
        self.colname = df.columns.name
        self.index = df.index.copy(deep=True)
        self.freq = getattr(df.index, "freq", None)
        self.dtypes = list(df.dtypes)
        self.vals = [df.iloc[:, k].tolist() for k in range(df.shape[1])]
        self.attrs = dict(df.attrs)

    def diff(self):
        df = self.obj
        if list(df.columns) != self.cols:
            return "column labels became %s (were %s)" % (list(df.columns), self.cols)
        if df.columns.name != self.colname:
            return "the name of the columns became %r (was %r)" % (df.columns.name, self.colname)
        if dict(df.attrs) != self.attrs:
            return "the attributes became %r (were %r)" % (dict(df.attrs), self.attrs)
        if len(df) != len(self.index):
            return "row count became %d (was %d)" % (len(df), len(self.index))
        if not (list(df.index) == list(self.index) and df.index.dtype == self.index.dtype and df.index.name == self.index.name):
            return "row order or dates changed"
        if list(df.dtypes) != self.dtypes:
            return "column types became %s (were %s)" % (list(df.dtypes), self.dtypes)
        for k, c in enumerate(self.cols):
            for i, (a, b) in enumerate(zip(df.iloc[:, k].tolist(), self.vals[k])):
                if type(a) is not type(b) or not (a is b or a == b or (a != a and b != b)):
                    return "cell %s row %d became %r (was %r)" % (c, i, a, b)
        return None


def fig_digest():
    """Everything drawn on the current figure."""
    fig = plt.gcf()
    axes = []
    for ax in fig.axes:
        lines = []
        for ln in ax.get_lines():
            lines.append((str(ln.get_label()), _xs(ln.get_xdata(orig=False)), _xs(ln.get_ydata(orig=False)),
                          str(ln.get_color()), ln.get_alpha()))
        areas = []
        for co in ax.collections:
            vs = [_xs(p.vertices.ravel()) for p in co.get_paths()]
            areas.append((vs, _xs(np.asarray(co.get_facecolor()).ravel())))
        axes.append((lines, areas))
    sup = getattr(fig, "_suptitle", None)
    return (sup.get_text() if sup is not None else None, axes)


def _xs(a):
    return [float(x) if not np.ma.is_masked(x) else float("nan") for x in np.ma.asarray(a).ravel()]


def eq_digest(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(eq_digest(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return a == b
