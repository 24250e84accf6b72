"""C01: every day of every simulation equals the reference ledger (exhaustive price x signal histories)."""
import copy
import itertools
from .env import pd, TradingSimulation, no_plot
from tti.indicators import WeightedClose
from .ledger import Ledger, COLS, row_diff, stats_diff
from .worlds import de_bruijn

SIG = {"hold": ("hold", 0), "buy": ("buy", -1), "sell": ("sell", 1)}
NAMES = ["hold", "buy", "sell"]
RULE = "after every round the whole row, and after closing the whole table and the statistics, equal an independent ledger with an explicit list of open positions in exact rational arithmetic"
BOUNDS = {
    "quick": "all price words of length 4 over 3 prices (length 5 for one pair) and over 4 prices (2 pairs) x all signal sequences x 8 limit/factor pairs (limits hit exactly and by one step); "
             "long histories of every 3-price window (De Bruijn order 4) under all signal patterns of period <= 3",
    "thorough": "price words of length 6 over 3 and 5 over 4 prices x all signal sequences x 14 limit/factor pairs; long histories under all signal patterns of period <= 4",
}
P3 = [4.0, 6.0, 8.0]
P4 = [4.0, 4.125, 6.5, 9.0]
PF = [10.01, 9.99, 10.013]
PZ = [0.0, 4.0, -2.0]                      # prices that are zero or (as in futures) below
PT = [4.0, 4.0 + 2.0 ** -14, 5.0]         # a profit far below a cent
PU = [4.0, 4.0 + 2.0 ** -40, 4.0 - 2.0 ** -40, 5.0]      # profits of a few units in the last place
CONF = [(None, 1.5), (None, 1.0), (12, 1.0), (14.0, 1.5), (18, 1.5), (10.0, 2.0), (6.0, 1.25), (3.5, 1.5)]
CONF_T = CONF + [(20.0, 1.5), (24, 2), (16.0, 1.0), (8.0, 1.0), (9, 1.5), (1e9, 3.0)]
CHUNK = 1
MEANING = dict(states="distinct ledger states (limit, factor, last row, multiset of open positions) reached", transitions="simulation rounds executed",
               traces_validated_against_impl="complete simulations closed and compared row by row")


def index(n):
    return pd.date_range("2001-01-01", periods=n, freq="D")


def jobs(tier):
    out = []
    conf = CONF if tier == "quick" else CONF_T
    n4 = 4 if tier == "quick" else 5
    for lim, fac in conf:
        n3 = 6 if tier != "quick" else 5 if (lim, fac) in ((14.0, 1.5),) else 4
        for first in itertools.product(range(3), repeat=(2 if n3 == 5 else 1) if tier == "quick" else 3):
            out.append(dict(kind="tree", prices="P3", n=n3, lim=lim, fac=fac, first=list(first)))
        if tier == "quick" and (lim, fac) not in ((12, 1.0), (14.0, 1.5)):
            continue
        for first in itertools.product(range(4), repeat=1 if tier == "quick" else 2):
            out.append(dict(kind="tree", prices="P4", n=n4, lim=lim, fac=fac, first=list(first)))
    for lim, fac in [(None, 1.1), (None, 1.5), (25.0, 1.3), (30.03, 1.0), (45, 1.2)]:
        out.append(dict(kind="tree", prices="PF", n=3 if tier == "quick" else 5, lim=lim, fac=fac, first=[]))
    for scale in (2.0 ** -9, 2.0 ** 22, 2.0 ** -40):        # units of the price
        for lim, fac in ((None, 1.5), (14.0, 1.5)) if tier == "quick" else conf:
            out.append(dict(kind="tree", prices="P3", n=3 if tier == "quick" else 5, lim=lim if lim is None else lim * scale, fac=fac, first=[], scale=scale))
    for lim, fac in ((None, 1.5), (9.0, 1.25)) if tier == "quick" else conf:
        out.append(dict(kind="tree", prices="PT", n=3 if tier == "quick" else 5, lim=lim, fac=fac, first=[]))
    for lim, fac in ((None, 1.0), (None, 1.03125)):
        out.append(dict(kind="tree", prices="PU", n=3 if tier == "quick" else 4, lim=lim, fac=fac, first=[]))
    for lim, fac in ((None, 1.5), (6.0, 1.25), (4.0, 1.0)) if tier == "quick" else conf:
        out.append(dict(kind="tree", prices="PZ", n=4 if tier == "quick" else 5, lim=lim, fac=fac, first=[]))
    for k, (lim, fac) in enumerate(conf):       # the same through the public method, with an indicator whose signals are scripted
        out.append(dict(kind="api", prices=("P3", "PZ", "PT")[k % 3], n=3 if tier == "quick" else 4, lim=lim, fac=fac))
    for scale in (2.0 ** -9, 2.0 ** 22, 2.0 ** -34):
        out.append(dict(kind="api", prices="P3", n=3, lim=14.0 * scale if scale < 1 else 14 * 2 ** 22, fac=1.5, scale=scale))
    for lim, fac in ((None, 1.5), (2000, 2.0)):
        out.append(dict(kind="api", prices="P3", word="years", lim=lim, fac=fac, period=2))
    for w in ("years", "yearsdown"):
        out.append(dict(kind="long", prices="P3", word=w, lim=None, fac=1.5, period=2))
    for lim, fac in conf:
        out.append(dict(kind="long", prices="P3", lim=lim if lim is None else lim * 3, fac=fac, period=3 if tier == "quick" else 4))
    for lim, fac in ((None, 1.5), (500.0, 2.0)) if tier == "quick" else ((None, 1.5), (500.0, 2.0), (2000.0, 1.0), (96.0, 1.25)):
        for word in ("up", "down", "flat", "vee", "debruijn5"):
            out.append(dict(kind="long", prices="P3", word=word, lim=lim, fac=fac, period=2 if tier == "quick" else 3))
    for lim, fac in conf[:2 if tier == "quick" else None]:
        out.append(dict(kind="early", prices="P3", n=3 if tier == "quick" else 4, lim=lim, fac=fac))
    return out


def word(name):
    """Long histories: hundreds of positions stay open or are closed together."""
    n = 330
    if name in ("years", "yearsdown"):          # positions that stay open for years
        v = [4000.0] + [3000.0 - (k % 7) for k in range(1300)] + [4001.0, 3999.0, 4002.0]
        return v if name == "years" else [5000.0 - x for x in v]
    if name == "up":
        return [4.0 + k * 0.25 for k in range(n)]
    if name == "down":
        return [4.0 + (n - k) * 0.25 for k in range(n)]
    if name == "flat":
        return [8.0] * n
    if name == "vee":
        return [4.0 + abs(n // 2 - k) * 0.5 for k in range(n)]
    return [P3[k] for k in de_bruijn(3, 5)]


class Stop(Exception):
    pass


def node(r, job, words, sig, sim, led, i, tail):
    """Runs round i on the simulator and the ledger and compares the row."""
    led.step(NAMES[sig])
    sim.runSimulationRound(i_index=i, signal=SIG[NAMES[sig]])
    r.transitions += 1
    r.state(job["lim"], job["fac"], led.rows[-1], tuple(sorted(led.open)))


def check_rows(r, job, words, seq, data, led, upto):
    vals = data.to_numpy(dtype=object)
    for k in range(upto):
        d = row_diff(vals[k], led.rows[k], unit=min(1.0, job.get("scale", 1.0)))
        r.compared += 7
        if led.rows[k][1] != "none" or led.rows[k][5] != 0 or led.rows[k][3] != 0:
            r.nontrivial += 7
        if d:
            r.fail("row", "prices %s signals %s limit %s factor %s day %d: %s" % (words, seq, job["lim"], job["fac"], k, d),
                   got=[repr(x) for x in vals[k]], expected=[repr(x) for x in led.rows[k]])
            raise Stop
    return True


def leaf(r, job, words, seq, sim, led):
    data, stats = sim.closeSimulation()
    r.execs += 1
    if list(data.columns) != COLS or len(data) != len(words):
        r.fail("shape", "simulation table has columns %s and %d rows" % (list(data.columns), len(data)))
        raise Stop
    check_rows(r, job, words, seq, data, led, len(seq))
    d = stats_diff(stats, led.stats())
    r.compared += 12
    if d:
        r.fail("stats", "prices %s signals %s limit %s factor %s: %s" % (words, seq, job["lim"], job["fac"], d), stats={k: repr(v) for k, v in stats.items()})
        raise Stop
    r.count("closed_in_profit", led.closed[0] + led.closed[1])
    s = led.stats()
    r.count("ignored", s["number_of_ignored_buy_signals"] + s["number_of_ignored_sell_signals"])
    r.count("left_open", s["last_open_long_positions"] + s["last_open_short_positions"])
    if len(led.open) > 1 and led.closed[0] and led.closed[1]:
        r.sample(prices=words, signals=[NAMES[x] for x in seq], limit=job["lim"], factor=job["fac"], final=[str(x) for x in led.rows[-1]])


def new_sim(words, job):
    df = pd.DataFrame({"close": words}, index=index(len(words)))
    return TradingSimulation(input_data_index=df.index, close_values=df, max_exposure=job["lim"], short_exposure_factor=job["fac"])


class Scripted(WeightedClose):
    """An indicator with prescribed signals: the last date of its table selects the signal."""
    script = {}

    def getTiSignal(self):
        return SIG[NAMES[self.script[self.getTiData().index[-1]]]]


def api(r, job, words, ind, seq):
    """The complete simulation through the indicator's public method."""
    df = pd.DataFrame({"close": words}, index=ind.getTiData().index)
    Scripted.script = dict(zip(df.index, seq))
    led = Ledger(words, job["lim"], job["fac"])
    for s in seq:
        led.step(NAMES[s])
        r.state(job["lim"], job["fac"], led.rows[-1], tuple(sorted(led.open)))
    with no_plot():
        data, stats, _ = ind.getTiSimulation(df, max_exposure=job["lim"], short_exposure_factor=job["fac"])
    r.transitions += len(words)

    class Closed:
        def closeSimulation(self):
            return data, stats
    leaf(r, job, words, list(seq), Closed(), led)


Scripted.__name__ = "WeightedClose"          # the name under which the library keeps its properties


def scripted(n):
    return Scripted(pd.DataFrame({c: [4.0 + k % 3 for k in range(n)] for c in ("open", "high", "low", "close", "volume")}, index=index(n)))


def explore(r, job, words, sim, led, i, seq, early=False):
    if i == len(words):
        leaf(r, job, words, seq, sim, led)
        return
    if early and i:
        leaf(r, job, words, seq, copy.deepcopy(sim), led)
    # the first day opens nothing whatever its signal: all three on the first word only
    todo = range(3) if (i or early) else [sum(int(w * 8) for w in words) % 3]
    last = list(todo)[-1]
    for s in todo:
        if led.near_limit(NAMES[s]) and job["prices"] == "PF":
            continue
        sim2 = sim if s == last else copy.deepcopy(sim)
        led2 = led.fork()
        node(r, job, words, s, sim2, led2, i, None)
        explore(r, job, words, sim2, led2, i + 1, seq + [s], early)


def run_job(job, r):
    alpha = [x * job.get("scale", 1.0) for x in {"P3": P3, "P4": P4, "PF": PF, "PT": PT, "PZ": PZ, "PU": PU}[job["prices"]]]
    try:
        if job["kind"] in ("tree", "early"):
            first = job.get("first", [])
            for rest in itertools.product(range(len(alpha)), repeat=job["n"] - len(first)):
                words = [alpha[k] for k in list(first) + list(rest)]
                explore(r, job, words, new_sim(words, job), Ledger(words, job["lim"], job["fac"]), 0, [], job["kind"] == "early")
        elif job["kind"] == "api":
            if "word" in job:
                words = word(job["word"])
                ind = scripted(len(words))
                for pat in itertools.product(range(3), repeat=job["period"]):
                    api(r, job, words, ind, [pat[k % job["period"]] for k in range(len(words))])
                return
            ind = scripted(job["n"])
            for words in itertools.product(alpha, repeat=job["n"]):
                for seq in itertools.product(range(3), repeat=job["n"]):
                    if seq[0] == sum(int(w * 8) for w in words) % 3:
                        api(r, job, list(words), ind, seq)
        else:
            words = word(job["word"]) if "word" in job else [alpha[k] for k in de_bruijn(3, 4)]
            for p in range(1, job["period"] + 1):
                for pat in itertools.product(range(3), repeat=p):
                    seq = [pat[k % p] for k in range(len(words))]
                    sim, led = new_sim(words, job), Ledger(words, job["lim"], job["fac"])
                    for i, s in enumerate(seq):
                        node(r, job, words, s, sim, led, i, None)
                    leaf(r, job, words, seq, sim, led)
    except Stop:
        return


def finish(tier, tot):
    out = []
    for k in ("closed_in_profit", "ignored", "left_open"):
        if tot.counts.get(k, 0) < 1000:
            out.append("only %d cases of %s" % (tot.counts.get(k, 0), k))
    return out
