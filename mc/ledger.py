"""Reference trading ledger: one list of open positions, exact arithmetic."""
from fractions import Fraction as F

COLS = ["signal", "open_trading_action", "stock_value", "exposure", "portfolio_value", "earnings", "balance"]
STATS = ["number_of_trading_days", "number_of_buy_signals", "number_of_ignored_buy_signals", "number_of_sell_signals",
         "number_of_ignored_sell_signals", "last_stock_value", "last_exposure", "last_open_long_positions",
         "last_open_short_positions", "last_portfolio_value", "last_earnings", "final_balance"]


class Ledger:
    def __init__(self, prices, limit=None, factor=1.5):
        self.p = [F(x) for x in prices]
        self.limit = None if limit is None else F(limit)
        self.factor = F(factor)
        self.open = []            # (side, price)
        self.earned = F(0)
        self.rows = []
        self.closed = [0, 0]

    def fork(self):
        o = object.__new__(Ledger)
        o.__dict__.update(self.__dict__)
        o.open, o.rows, o.closed = list(self.open), list(self.rows), list(self.closed)
        return o

    def exposure(self):
        return sum((q if s > 0 else self.factor * q for s, q in self.open), F(0))

    def step(self, sig):
        i = len(self.rows)
        c = self.p[i]
        action = "none"
        if i > 0:
            keep = []
            for s, q in self.open:
                if (s > 0 and q < c) or (s < 0 and q > c):
                    self.earned += s * (c - q)
                    self.closed[s > 0] += 1
                else:
                    keep.append((s, q))
            self.open = keep
            if sig != "hold":
                s = 1 if sig == "buy" else -1
                need = self.exposure() + (c if s > 0 else self.factor * c)
                if self.limit is None or need <= self.limit:
                    self.open.append((s, c))
                    action = "long" if s > 0 else "short"
        pv = c * sum(s for s, _ in self.open)
        self.rows.append((sig, action, c, self.exposure(), pv, self.earned, self.earned + pv))

    def near_limit(self, sig):
        """True when the limit decision of the next step is decided by less than the noise of float arithmetic."""
        if self.limit is None or sig == "hold":
            return False
        o = self.fork()
        o.limit = None
        o.step(sig)
        return abs(o.rows[-1][3] - self.limit) < F(1, 10 ** 9)

    def stats(self):
        r = self.rows
        d = dict.fromkeys(STATS, 0)
        d["number_of_trading_days"] = len(r)
        for sig in ("buy", "sell"):
            d["number_of_%s_signals" % sig] = sum(x[0] == sig for x in r)
            d["number_of_ignored_%s_signals" % sig] = sum(x[0] == sig and x[1] == "none" for x in r)
        d["last_open_long_positions"] = sum(s > 0 for s, _ in self.open)
        d["last_open_short_positions"] = sum(s < 0 for s, _ in self.open)
        if r:
            for k, j in (("last_stock_value", 2), ("last_exposure", 3), ("last_portfolio_value", 4), ("last_earnings", 5),
                         ("final_balance", 6)):
                d[k] = r[-1][j]
        return d


def row_diff(got, exp, tol=0.0, unit=1.0):
    """None or a text describing the first difference of a simulation row."""
    for j, name in enumerate(COLS):
        g, e = got[j], exp[j]
        if j < 2:
            if g != e:
                return "%s is %r, ledger has %r" % (name, g, e)
        else:
            try:
                g = float(g)
            except (TypeError, ValueError):
                return "%s is %r, ledger has %r" % (name, g, float(e))
            if not abs(g - float(e)) <= tol + 1e-9 * max(unit, abs(float(e))):
                return "%s is %r, ledger has %r" % (name, g, float(e))
    return None


def stats_diff(got, exp):
    if set(got) != set(exp):
        return "statistics keys %s" % sorted(set(got) ^ set(exp))
    for k in STATS:
        g, e = got[k], exp[k]
        if k.startswith("number") or k.startswith("last_open"):
            if int(g) != g or g != e:
                return "statistic %s is %r, ledger has %r" % (k, g, e)
        else:
            g, e = float(g), float(e)
            if not abs(g - e) <= 0.005 + 1e-9 * max(1.0, abs(e)) or abs(round(g, 2) - g) > 1e-9 * max(1.0, abs(g)):
                return "statistic %s is %r, ledger has %r (to 2 decimals)" % (k, g, e)
    return None
