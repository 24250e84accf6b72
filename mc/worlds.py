"""Finite alphabets of bars and the series built from them (De Bruijn words, products, regimes)."""
import itertools
from .env import pd, np

FULL = {"o": "open", "h": "high", "l": "low", "c": "close", "v": "volume"}
SHORT = {v: k for k, v in FULL.items()}

# bars: (open, high, low, close, volume); dyadic prices, power-of-two ranges
FLAT = (10.0, 10.0, 10.0, 10.0, 128)
UP = (10.0, 12.0, 8.0, 11.0, 256)
DOWN = (12.0, 12.5, 8.5, 9.25, 256)
GAP = (15.0, 18.0, 14.0, 17.0, 64)
ZERO = (10.0, 11.0, 9.0, 10.0, 0)
LOW = (7.5, 8.5, 7.5, 7.5, 512)
TOP = (9.0, 13.0, 9.0, 13.0, 64)
DOJI = (10.0, 10.5, 9.5, 10.0, 128)
HUGE = (10.0, 522.0, 10.0, 500.0, 1 << 33)
BARS = [UP, DOWN, FLAT, GAP, LOW, ZERO, TOP, DOJI]


def de_bruijn(k, n):
    """The lexicographically least cyclic word over range(k) containing every word of length n once; linearised."""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1: p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[: n - 1]


def bars_word(alphabet, n):
    return [alphabet[j] for j in de_bruijn(len(alphabet), n)]


def walk(steps, start=64.0, width=(1.0, 0.5), vols=(128, 256, 256, 64)):
    """Bars from close-to-close steps; open at the previous close, ranges and volumes cycle."""
    bars, c = [], start
    for i, s in enumerate(steps):
        o, c = c, c + s
        w1, w2 = width[i % len(width)], width[(i // 2) % len(width)]
        bars.append((o, max(o, c) + w1, min(o, c) - w2, c, vols[(i * 3 + i // 5) % len(vols)]))
    return bars


def walk_word(steps, n, **kw):
    ws = [steps[j] for j in de_bruijn(len(steps), n)]
    lo, t = 0.0, 0.0
    for s in ws:
        t += s
        lo = min(lo, t)
    kw.setdefault("start", 16.0 - lo)
    return walk(ws, **kw)


def geometric(n=5):
    out, c = [], 1024.0
    for j in de_bruijn(3, n):
        o = c
        c = min(max(c * (1.0, 2.0, 0.5)[j], 8.0), 65536.0)
        hi, lo = max(o, c) * 1.25, min(o, c) * 0.75
        out.append((o, hi, lo, c, (1024, 2048, 512)[j]))
    return out


def regimes():
    st = [1.0] * 45 + [0.0] * 30 + [-0.5] * 60 + [0.0, 1.0, -1.0, 2.0, -2.0] * 8 + [0.25] * 40 + [-8.0] + [0.5, -0.25] * 25 \
        + [8.0] + [0.0] * 35 + [-1.0, -1.0, 3.0] * 15
    b = walk(st, start=64.0)
    # two flat, volume-less stretches
    for a in (60, 300):
        c = b[a][3]
        for i in range(a, a + 6):
            b[i] = (c, c, c, c, 0 if i % 2 else 128)
    return b


def ordinary(n=420, seed=7):
    """Ordinary looking prices in cents (fixed congruential sequence)."""
    x, c, out = seed, 4000, []
    for i in range(n):
        r = []
        for _ in range(5):
            x = (x * 1103515245 + 12345) % (1 << 31)
            r.append(x >> 8)
        o = c + r[0] % 61 - 30
        c = max(500, o + r[1] % 201 - 100)
        out.append((o / 100, (max(o, c) + r[2] % 90) / 100, (min(o, c) - r[3] % 90) / 100, c / 100, 10000 + r[4] % 9000 * 37))
    return out


def spikes(period=7):
    """Extreme jumps up and down on otherwise quiet data."""
    out = []
    for i in range(140):
        if i % period == 3:
            out.append((10.0, 1034.0, 10.0, 1000.0, 1 << 34))
        elif i % (period + 4) == 5:
            out.append((10.0, 10.25, 0.25, 0.5, 1))
        else:
            out.append(BARS[(i * 5 + i // 9) % 8])
    return out


def tenths(n=3):
    """Closes at exact tenths of a constant range (hits every percentage threshold exactly)."""
    out, c = [], 15.0
    al = [10.0, 11.5, 12.0, 13.0, 15.0, 17.0, 18.0, 18.5, 20.0]
    for k, j in enumerate(de_bruijn(len(al), n)):
        o, c = c, al[j]
        out.append((o, 20.0, 10.0, c, (128, 256, 256, 64, 512)[k % 5]))
    return out


def ranges():
    """Quiet, widening and narrowing ranges with rises and falls (reversal bulges)."""
    out, c = [], 256.0
    for k in range(460):
        ph = k % 115
        w = 1.0 if ph < 45 else 1.0 + (ph - 44) * (3.0 if k < 250 else 9.0) if ph < 62 else 2.0 if ph < 75 else 0.5
        o = c
        c = c + ((1.0 if (k // 115) % 2 else -1.0) * (1.0 if ph % 5 else -2.0) if ph > 40 else (0.5, -0.5, 0.0)[k % 3])
        out.append((o, max(o, c) + w, min(o, c) - w, c, 128 + 64 * (k % 4)))
    return out


def bulges():
    """Range expansions of many strengths and lengths on rising and falling closes."""
    out, c = [], 512.0
    for k in range(14):
        quiet, wide, amp = 12 + (k * 5) % 17, 6 + (k * 7) % 13, (2.0, 4.0, 8.0, 1.5, 16.0)[k % 5]
        for t in range(quiet + wide + 14):
            w = 1.0 if t < quiet else 1.0 + amp * (t - quiet + 1) / 4 if t < quiet + wide else 1.0
            o = c
            c = c + (1.0 if k % 2 else -1.0) * (1.0, -0.5, 1.5, 0.0)[t % 4]
            out.append((o, max(o, c) + w, min(o, c) - w, c, 128))
    return out


def divergence():
    """Long falls and rises with unequal steps and volumes: price extremes without indicator extremes."""
    st = []
    for a in range(9):
        st += [-2.0, 1.0, -1.5, 0.5] * 5 + [0.25] * (4 + a) + [-3.0, 2.5] * 4 + [3.0, -1.0, 1.5, 0.0] * 6 + [-6.0, 4.0, 4.0, -1.0] + [0.0] * a
    b = walk(st, start=300.0, width=(1.0, 3.0, 0.5, 0.25), vols=(128, 512, 64, 256, 256, 1024, 32))
    return b


def trends():
    """Long falls with bounces, then long rises with dips."""
    st = [-2.0] * 90 + [1.5] * 11 + [-2.0] * 30 + [2.0] * 9 + [-1.0] * 30 + [1.0] * 14 + [-3.0] * 12
    st = st + [0.5] * 8 + [-x for x in st]
    return walk(st, start=640.0, width=(0.5, 1.0, 0.25))


def slow_bulge():
    """Ranges that widen fast, keep widening slowly for months, then settle: a bulge with a very long way back; with rising, then with falling closes."""
    out, c = [], 4096.0
    for sign in (1.0, -1.0):
        w = 1.0
        for k, g in enumerate([1.0] * 60 + [1.03] * 50 + [1.0178] * 60 + [1.0] * 60):
            w *= g
            c += sign * (0.75, -0.25, 0.5)[k % 3]
            h = int(w * 64) / 128
            out.append((c, c + h, c - h, c, 128))
    return out


def plateau():
    """Months of narrow inside bars after a spike (up, then down), each followed by a slow move past it."""
    out = [(16.0, 17.0, 15.0, 16.0, 256)] * 3
    for k, (sign, n) in enumerate([(1.0, 60), (-1.0, 75), (1.0, 180), (-1.0, 190)]):
        c = out[-1][3]
        c0 = 64.0 + 8 * k
        for x in (c, (c + c0) / 2, c0, c0 + sign * 2, c0 + sign * 4):
            o = out[-1][3]
            out.append((o, max(o, x) + 0.5, min(o, x) - 0.5, x, 512))
        top = c0 + sign * 6
        out.append((c0, max(c0, top), min(c0, top), c0 + sign * 3, 1024))
        c = c0 + sign * 2
        for i in range(n):
            x = c + (0.25, 0.0, 0.5, -0.25, 0.0)[i % 5] * (i % 3)
            w = max(0.5, 2.0 - i / 256)
            out.append((out[-1][3], c + w, c - w, x, (128, 256, 64)[i % 3]))
        for i in range(24):
            x = c + sign * i / 4 - (0.5 if i % 4 == 2 else 0.0) * sign
            o = out[-1][3]
            out.append((o, max(o, x) + 0.25, min(o, x) - 0.25, x, 256))
    return out


def below():
    """Prices around and below zero (spreads, futures): every three steps, through exactly zero."""
    st = [(2.0, -0.5, -1.5, 0.0)[j] for j in de_bruijn(4, 4)]
    return walk(st[:130] + [-2.0] * 6 + st[130:], start=-2.0)


def longseries():
    return {
        "plateau": plateau(),
        "below": below(),
        "flatstart": [FLAT] * 90 + bars_word([UP, DOWN, FLAT, GAP], 3) + [FLAT] * 40 + [(10.0, 10.0, 10.0, 10.0, 0)] * 70 + bars_word([UP, FLAT, ZERO], 3) + [GAP, LOW] * 30,
        "slowbulge": slow_bulge(),
        "bars4": bars_word([UP, DOWN, FLAT, GAP, LOW], 4),
        "bars5": bars_word([UP, DOWN, ZERO, TOP], 5),
        "walk6": walk_word([1.0, -1.0, 0.0], 6),
        "walk2": walk_word([2.0, -0.5, -1.5, 0.0], 4),
        "geo": geometric(5),
        "regimes": regimes(),
        "ordinary": ordinary(),
        "ordinary6": ordinary(n=2500, seed=11),
        "spikes": spikes(),
        "tenths": tenths(),
        "sevens": walk_word([7.0, -3.0, 3.0, -7.0], 4),
        "threes": walk_word([3.0, -1.0, -3.0, 1.0], 4),
        "fours": walk_word([4.0, -4.0, 0.0, 1.0], 4),
        "ranges": ranges(),
        "divergence": divergence(),
        "trends": trends(),
        "bulges": bulges(),
    }


_LONG = None


def scale(bars, k, q):
    """Prices times k, volumes times q."""
    return [(o * k, h * k, l * k, c * k, v * q) for o, h, l, c, v in bars]


def mixed_scale(bars, a, b, every=37):
    """The unit of price and volume changes by powers of two along the history (tiny, ordinary, large)."""
    out = []
    for i, (o, h, l, c, v) in enumerate(bars):
        k = 2.0 ** (a + (b - a) * ((i // every) % 5) // 4)
        out.append((o * k, h * k, l * k, c * k, v * k))
    return out


def long(name):
    """A long series; 'x@p6v-3' scales prices by 2**6 and volumes by 2**-3, 'x@grow' / 'x@fall' change the unit along the way."""
    global _LONG
    if _LONG is None:
        _LONG = longseries()
    if name not in _LONG:
        base, _, mod = name.partition("@")
        if mod == "grow":
            _LONG[name] = mixed_scale(_LONG[base], -12, 12)
        elif mod == "fall":
            _LONG[name] = mixed_scale(_LONG[base], 12, -12)
        else:
            pk, _, vk = mod[1:].partition("v")
            _LONG[name] = scale(_LONG[base], 2.0 ** int(pk or 0), 2.0 ** int(vk or 0))
    return _LONG[name]


_LIVELY = None


def lively(name, p, w=12, least=0):
    """The piece of a long series on which the reference rules give this indicator the most varied signals in the last w days (mc/lively.json)."""
    import json
    import os
    global _LIVELY
    if _LIVELY is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "lively.json")) as fh:
            _LIVELY = json.load(fh)
    s, off, n, _ = _LIVELY[name + "|" + json.dumps(p, sort_keys=True)][str(w)]
    end = max(off + n, least)
    return long(s)[min(off, end - least): end]


def cols_of(bars):
    o, h, l, c, v = ([float(x) for x in col] for col in zip(*bars))
    return {"o": o, "h": h, "l": l, "c": c, "v": v}


def frame(bars, cols=("open", "high", "low", "close", "volume"), start="2001-01-01", index=None, floats=False):
    idx = pd.date_range(start, periods=len(bars), freq="D") if index is None else index
    k = {"open": 0, "high": 1, "low": 2, "close": 3, "volume": 4}
    d = {}
    for c in cols:
        xs = [b[k[c]] for b in bars]
        whole = c == "volume" and not floats and all(float(x).is_integer() and abs(x) < 1 << 62 for x in xs)
        d[c] = np.array(xs, dtype="int64" if whole else "float64")
    return pd.DataFrame(d, index=idx)


STEPS = [(1.0, -1.0, 0.0), (2.0, -0.5, -1.5, 0.0), (0.25, -0.25, 0.5, -0.5, 0.0), (4.0, -4.0, 1.0, -1.0, 0.0), (0.5, 1.0, -1.5), (-0.5, -1.0, 1.5), (8.0, -8.0, 0.25, -0.25), (3.0, -3.0, 1.0, -1.0, 7.0, -7.0)]
WIDTHS = [(0.5, 1.0), (0.25, 0.0), (0.0,), (2.0, 0.5, 1.0), (4.0, 0.25, 0.0)]
VOLS = [(128, 256, 64), (100, 101, 99, 0), (1, 2, 3), (1000, 1000, 5000, 10), (0, 0, 7)]


def edge(seed, n):
    """A reproducible varied history: phases of drift, oscillation and rest with steps, ranges, gaps and volumes from small sets (fixed congruential sequence)."""
    x = (seed * 2654435761 + 97) % (1 << 31)

    def pick(k):
        nonlocal x
        x = (x * 1103515245 + 12345) % (1 << 31)
        return (x >> 12) % k
    if seed % 16 == 15:                 # prices that rest exactly on the retracement levels of their own range
        cs = [1008.0, 8.0] + [float((1008, 8, 626, 508, 772, 390, 627, 389, 625, 773, 771, 509, 507, 391)[pick(14)]) for _ in range(n - 2)]
        return [(c, min(c + 1, 1008.0), max(c - 1, 8.0), c, 100 + pick(3)) for c in cs]
    k = 2.0 ** (0, 0, 0, -9, -13, 3, 0, 0)[pick(8)]
    q = (1, 1, 1, 1, 2.0 ** -24, 2.0 ** -18)[pick(6)]
    c = float((64, 100, 16, 1000, 256, 40)[pick(6)])
    out, left, whole = [], 0, pick(3)
    rest = n - (4, 8, 16, 24)[pick(4)] if seed % 16 == 14 else 0          # a long rest first: averages settle on the price exactly
    while len(out) < n:
        if len(out) < rest:
            out.append((c * k, c * k, c * k, c * k, (100, 0)[seed % 32 > 16] * q))
            continue
        if not left:
            st, wd, vo = STEPS[pick(len(STEPS))], WIDTHS[pick(len(WIDTHS))], VOLS[pick(len(VOLS))]
            left, bias, mode = (3, 7, 15, 30, 45)[pick(5)], (0, 0, 1, -1)[pick(4)], pick(4)
        left -= 1
        s = st[pick(len(st))]
        if bias:
            s = bias * abs(s)
        if mode == 3:
            s = st[len(out) % len(st)]
        o = c + (0.0 if mode != 2 else st[pick(len(st))])
        c = c + s
        if min(o, c) <= 8:
            o, c = o + 16.0, c + 16.0
        if whole == 2:
            o, c = float(int(o)), float(int(c))
        h, l = max(o, c) + wd[pick(len(wd))], min(o, c) - wd[pick(len(wd))]
        out.append((o * k, h * k, l * k, c * k, vo[pick(len(vo))] * q))
    return out


def far_bars(name, n, period):
    if name.startswith("middle"):
        # one extreme at the start, then for hundreds of days only the middle of the range, across its centre and back
        e = [(10.0, 12.0, 8.0, 12.0, 128)] * 3 if name == "middle" else [(10.0, 12.0, 8.0, 8.0, 128)] * 3
        head = [(10.0, 12.0, 8.0, 10.0, 128)] * period + e
        return head + [(10.0, 12.0, 8.0, (10.5, 9.5, 9.5, 10.5, 10.0)[i % 5], 128) for i in range(n - len(head))]
    if name == "long_bulge":
        out, w, c = [], 1.0 / 64, 4096.0
        for k, g in enumerate([1.0] * 60 + [1.03] * 40 + [1.0178] * (n - 220) + [1.0] * 120):
            w *= g
            c += (0.75, -0.25, 0.5)[k % 3]
            out.append((c, c + w / 2, c - w / 2, c, 128))
        return out
    return long(name)[:n]


def products(alphabet, n):
    return itertools.product(alphabet, repeat=n)


def base_prefix(kind, n):
    """n bars that bring a long-window indicator past its warm-up."""
    if kind == "mixed":
        w = long("walk6")
        return w[100: 100 + n] if n else []
    if kind == "bars":
        return long("bars4")[37: 37 + n]
    if kind == "up":
        return walk([1.0] * n, start=16.0)
    if kind == "flat":
        return [FLAT] * n
    if kind == "osc":
        return walk([1.0, -1.0, 2.0, -2.0, 0.0] * (n // 5 + 1), start=32.0)[:n]
    raise ValueError(kind)
