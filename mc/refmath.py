"""Elementary series arithmetic used by the reference definitions.

Plain Python floats and lists only: no numpy, no pandas, nothing of the
library under test.  A missing value is NaN; ANY marks a cell whose value the
definition leaves to floating point noise (never compared).
"""
import math

NAN = float("nan")
INF = float("inf")


class _Any:
    def __repr__(self):
        return "ANY"


ANY = _Any()


def isnan(x):
    return x is not ANY and x != x


def div(a, b):
    """IEEE division."""
    if a != a or b != b:
        return NAN
    if b == 0:
        if a == 0:
            return NAN
        neg = (a < 0) != (math.copysign(1.0, b) < 0)
        return -INF if neg else INF
    if math.isinf(a) and math.isinf(b):
        return NAN
    return a / b


def mul(a, b):
    if a != a or b != b:
        return NAN
    if (math.isinf(a) and b == 0) or (math.isinf(b) and a == 0):
        return NAN
    return a * b


def r4(x):
    return x if (x != x or math.isinf(x)) else round(x, 4)


def rnd(xs, k=4):
    return [x if (x is ANY or x != x or math.isinf(x)) else round(x, k) for x in xs]


def clean(xs):
    """Windows treat infinite members as undefined."""
    return [NAN if math.isinf(x) else x for x in xs]


def shift(xs, k):
    n = len(xs)
    if k >= 0:
        return [NAN] * min(k, n) + xs[: max(0, n - k)]
    return xs[-k:] + [NAN] * min(-k, n)


def diff(xs, k=1):
    s = shift(xs, k)
    return [a - b for a, b in zip(xs, s)]


def _win(xs, n, f, minp=None):
    xs = clean(xs)
    minp = n if minp is None else minp
    out = []
    for i in range(len(xs)):
        w = [x for x in xs[max(0, i - n + 1): i + 1] if x == x]
        out.append(f(w) if len(w) >= minp and w else NAN)
    return out


def rsum(xs, n):
    return _win(xs, n, math.fsum)


def sma(xs, n, minp=None):
    return _win(xs, n, lambda w: math.fsum(w) / len(w), minp)


def rmax(xs, n, minp=None):
    return _win(xs, n, max, minp)


def rmin(xs, n, minp=None):
    return _win(xs, n, min, minp)


def pstd(xs, n):
    def f(w):
        if max(w) == min(w):
            return 0.0
        m = math.fsum(w) / len(w)
        return math.sqrt(math.fsum((x - m) ** 2 for x in w) / len(w))
    return _win(xs, n, f)


def ema(xs, span=None, minp=0, alpha=None):
    """Exponential average, recursive form, first observation as the seed.

    An undefined observation keeps the previous average and lets its weight
    decay (absolute positions), as documented for the ewm of pandas.
    """
    a = 2.0 / (span + 1.0) if alpha is None else alpha
    xs = clean(xs)
    out, cur, wt, nobs = [], NAN, 1.0, 0
    for x in xs:
        if cur == cur:
            wt *= 1.0 - a
            if x == x:
                if x != cur:
                    cur = (wt * cur + a * x) / (wt + a)
                wt = 1.0
                nobs += 1
        elif x == x:
            cur = x
            nobs += 1
        out.append(cur if nobs >= max(minp, 1) else NAN)
    return out


def ols(xs, n):
    """(slope, value at the last point) of the least squares line of each window."""
    slopes, ends = [], []
    for i in range(len(xs)):
        if i < n - 1:
            slopes.append(NAN)
            ends.append(NAN)
            continue
        w = xs[i - n + 1: i + 1]
        mx = (n - 1) / 2.0
        my = math.fsum(w) / n
        sxx = math.fsum((k - mx) ** 2 for k in range(n))
        sxy = math.fsum((k - mx) * (w[k] - my) for k in range(n))
        s = div(sxy, sxx)
        slopes.append(s)
        ends.append(my + s * (n - 1 - mx))
    return slopes, ends


def cumsum_skip(xs):
    t, out = 0.0, []
    for x in xs:
        if x == x:
            t += x
            out.append(t)
        else:
            out.append(NAN)
    return out
