"""Reference trading rules: the documented signal of every indicator for the last row of a history.

A rule sees the input columns d (arrays up to and including today), the indicator's own reported columns t
(same length), the parameters p, precomputed averages x, and a comparator q.  Comparisons whose outcome cannot be
decided in float64 (averages computed in another order) branch: all admissible signals are returned.
"""
import numpy as np

from . import ev

RULES = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f
    return deco


class Q:
    """Comparator; ambiguous comparisons take their outcome from a list of choices."""

    def __init__(self, choices):
        self.choices, self.used = choices, 0

    def lt(self, a, b, tol=0.0):
        if a != a or b != b:
            return False
        if tol > 0 and abs(a - b) <= tol:
            self.used += 1
            if self.used > len(self.choices):
                self.choices.append(False)
            return self.choices[self.used - 1]
        return a < b

    def gt(self, a, b, tol=0.0):
        return self.lt(b, a, tol)


def signals(name, d, t, p, x):
    """Set of admissible signals."""
    out, todo = set(), [[]]
    while todo:
        c = todo.pop()
        k = len(c)
        q = Q(list(c))
        out.add(RULES[name](d, t, p, x, q) or "hold")
        for j in range(k, len(q.choices)):
            todo.append(q.choices[:j] + [True])
        if len(out) == 3:
            break
    return out


def crossing(col, low=None, high=None, below="buy", above="sell"):
    """below when the value falls under low, above when it rises over high."""
    def f(d, t, p, x, q):
        v = t[col]
        if len(v) < 2:
            return None
        if high is not None and v[-2] < high < v[-1]:
            return above
        if low is not None and v[-2] > low > v[-1]:
            return below
    return f


RULES["ChandeMomentumOscillator"] = crossing("cmo", -50.0, 50.0)
RULES["IntradayMomentumIndex"] = crossing("imi", 30.0, 70.0)
RULES["RelativeMomentumIndex"] = crossing("rmi", 30.0, 70.0)
RULES["RelativeStrengthIndex"] = crossing("rsi", 30.0, 70.0)
RULES["RelativeVolatilityIndex"] = crossing("rvi", 40.0, 60.0)
RULES["StochasticMomentumIndex"] = crossing("smi", -40.0, 40.0)
RULES["SwingIndex"] = crossing("swi", 0.0, 0.0)
RULES["ForecastOscillator"] = crossing("fosc", 0.0, 0.0)
RULES["KlingerOscillator"] = crossing("ko", 0.0, 0.0)
RULES["LinearRegressionSlope"] = crossing("lrs", 0.0, 0.0)
RULES["PriceOscillator"] = crossing("posc", 0.0, 0.0, below="sell", above="buy")
RULES["DetrendedPriceOscillator"] = crossing("dpo", 0.0, 0.0, below="sell", above="buy")
RULES["EaseOfMovement"] = crossing("emv_ma", 0.0, 0.0, below="sell", above="buy")


def price_crosses(col, up="sell", down="buy"):
    def f(d, t, p, x, q):
        c, v = d["close"], t[col]
        if len(v) < 2:
            return None
        if c[-2] > v[-2] and c[-1] < v[-1]:
            return down
        if c[-2] < v[-2] and c[-1] > v[-1]:
            return up
    return f


RULES["LinearRegressionIndicator"] = price_crosses("lri")
RULES["TimeSeriesForecast"] = price_crosses("tsf")
RULES["WeightedClose"] = price_crosses("wc")
RULES["WildersSmoothing"] = price_crosses("ws")
RULES["ParabolicSAR"] = price_crosses("sar", up="buy", down="sell")


def outside(upper, lower):
    def f(d, t, p, x, q):
        c = d["close"][-1]
        return "sell" if c > t[upper][-1] else "buy" if c < t[lower][-1] else None
    return f


RULES["BollingerBands"] = outside("upper_band", "lower_band")
RULES["Envelopes"] = outside("upper_band", "lower_band")
RULES["PriceChannel"] = outside("highest_high", "lowest_low")
RULES["TripleExponentialMovingAverage"] = lambda d, t, p, x, q: (
    "buy" if d["close"][-1] < t["tema"][-1] else "sell" if d["close"][-1] > t["tema"][-1] else None)
RULES["DoubleExponentialMovingAverage"] = lambda d, t, p, x, q: "buy" if d["close"][-1] < t["dema"][-1] else None
RULES["MovingAverage"] = lambda d, t, p, x, q: (
    "buy" if d["close"][-1] > t["ma-" + p["ma_type"]][-1] else None)
RULES["CommodityChannelIndex"] = lambda d, t, p, x, q: (
    "buy" if t["cci"][-1] < -100 else "sell" if t["cci"][-1] > 100 else None)


def run3(col, up, down):
    """Three consecutive rising / falling values."""
    def f(d, t, p, x, q):
        v = t[col]
        if len(v) < 3:
            return None
        if v[-3] < v[-2] < v[-1]:
            return up
        if v[-3] > v[-2] > v[-1]:
            return down
    return f


for _n, _c in (("OnBalanceVolume", "obv"), ("PriceAndVolumeTrend", "pvt"), ("PriceRateOfChange", "prc"),
               ("VolumeRateOfChange", "vrc")):
    RULES[_n] = run3(_c, "sell", "buy")
RULES["VolatilityChaikins"] = run3("vch", "buy", "sell")


@rule("VolumeOscillator")
def _(d, t, p, x, q):
    v = t["vosc"]
    if len(v) < 3:
        return None
    if 0 < v[-3] < v[-2] < v[-1]:
        return "buy"
    if v[-3] > v[-2] > v[-1] > 0:
        return "sell"


@rule("MarketFacilitationIndex")
def _(d, t, p, x, q):
    v = t["mfi"]
    if len(v) < 2:
        return None
    return "buy" if v[-2] > v[-1] else "sell" if v[-2] < v[-1] else None


@rule("AccumulationDistributionLine")
def _(d, t, p, x, q):
    if len(t["adl"]) < 2:
        return None
    c, a = d["close"], t["adl"][-1]
    if c[-1] != c[-2]:
        return "buy" if a > 0 else "sell" if a < 0 else None


@rule("AverageTrueRange")
def _(d, t, p, x, q):
    n = len(t["atr"])
    if n < 10 or not t["atr"][-1] > 0.01 * d["close"][-1]:
        return None
    c = d["close"][-1]
    s5, e5 = x["sma5"].v[n - 1], x["sma5"].e[n - 1]
    s10, e10 = x["sma10"].v[n - 1], x["sma10"].e[n - 1]
    if q.gt(c, s5, e5):
        return "buy" if q.gt(c, s10, e10) else "sell"
    if abs(c - s5) <= e5 and e5 > 0:  # neither above nor, when it was not above, necessarily below
        return "buy" if q.lt(c, s5, e5) else None
    return "buy" if c < s5 else None


@rule("ChaikinMoneyFlow")
def _(d, t, p, x, q):
    v, c = t["cmf"], d["close"]
    if len(v) < 3:
        return None
    if v[-2] > v[-1] and max(c[-3], c[-2]) < c[-1]:
        return "sell"
    if v[-2] < v[-1] and min(c[-3], c[-2]) > c[-1]:
        return "buy"


@rule("ChaikinOscillator")
def _(d, t, p, x, q):
    v, n = t["co"], len(t["co"])
    if n < 90:
        return None
    m, e, c = x["sma90"].v[n - 1], x["sma90"].e[n - 1], d["close"][-1]
    if v[-2] < v[-1] < 0.0:
        return "buy" if q.gt(c, m, e) else None
    if v[-2] > v[-1] > 0.0:
        return "sell" if q.lt(c, m, e) else None


@rule("DirectionalMovementIndex")
def _(d, t, p, x, q):
    a, b = t["+di"], t["-di"]
    if len(a) < 2 or not t["adxr"][-1] >= 20:
        return None
    if a[-2] > b[-2] and a[-1] < b[-1]:
        return "sell"
    if a[-2] < b[-2] and a[-1] > b[-1]:
        return "buy"


@rule("FibonacciRetracement")
def _(d, t, p, x, q):
    c = d["close"]
    if len(c) < 2:
        return None
    for down, s in ((True, "buy"), (False, "sell")):
        for k in ("rl_61.8", "rl_50.0", "rl_38.2", "rl_23.6"):
            v = t[k]
            if (c[-2] > v[-2] and c[-1] < v[-1]) if down else (c[-2] < v[-2] and c[-1] > v[-1]):
                return s


@rule("IchimokuCloud")
def _(d, t, p, x, q):
    a, b, s, k, c = t["senkou_a"], t["senkou_b"], t["tenkan_sen"], t["kijun_sen"], d["close"]
    if len(a) < 2 or np.isnan(a[-1]) or np.isnan(b[-1]):
        return None
    top, bottom = max(a[-1], b[-1]), min(a[-1], b[-1])
    three = (c[-1], s[-1], k[-1])
    if s[-2] < k[-2] and s[-1] > k[-1] and all(z > top for z in three):
        return "buy"
    if s[-2] > k[-2] and s[-1] < k[-1] and all(z < bottom for z in three):
        return "sell"


@rule("MassIndex")
def _(d, t, p, x, q):
    v, n = t["mi"], len(t["mi"])
    if n < 2 or not v[-1] < 26.5:
        return None
    i = n - 2
    while i >= 0 and not v[i] < 26.5 and not v[i] > 27.0:
        i -= 1
    if i < 0 or not v[i] > 27.0:
        return None
    m = x["ema9"]
    a, b, e = m.v[n - 2], m.v[n - 1], m.e[n - 2] + m.e[n - 1]
    if q.lt(a, b, e):
        return "sell"
    return "buy" if q.gt(a, b, e) else None


@rule("MedianPrice")
def _(d, t, p, x, q):
    v, n = t["mp"], len(t["mp"])
    if n < max(p["period"], 2):
        return None
    m = x["ema"]
    a, b, ea, eb = m.v[n - 2], m.v[n - 1], m.e[n - 2], m.e[n - 1]
    if q.lt(a, v[-2], ea) and q.gt(b, v[-1], eb):
        return "buy"
    if q.gt(a, v[-2], ea) and q.lt(b, v[-1], eb):
        return "sell"


@rule("Momentum")
def _(d, t, p, x, q):
    v, n = t["mom"], len(t["mom"])
    if n < 9:
        return None
    m = x["ema_mom"]
    a, b, ea, eb = m.v[n - 2], m.v[n - 1], m.e[n - 2], m.e[n - 1]
    if q.lt(v[-2], a, ea) and q.gt(v[-1], b, eb):
        return "sell"
    if q.gt(v[-2], a, ea) and q.lt(v[-1], b, eb):
        return "buy"


@rule("MovingAverageConvergenceDivergence")
def _(d, t, p, x, q):
    m, s = t["macd"], t["signal_line"]
    if len(m) < 2:
        return None
    if m[-2] < 0 < m[-1]:
        return "buy"
    if m[-2] > 0 > m[-1]:
        return "sell"
    if m[-2] > s[-2] and m[-1] < s[-1]:
        return "sell"
    if m[-2] < s[-2] and m[-1] > s[-1]:
        return "buy"


@rule("NegativeVolumeIndex")
def _(d, t, p, x, q):
    n = len(t["nvi"])
    if n < 255:
        return None
    return "buy" if q.gt(t["nvi"][-1], x["ema255"].v[n - 1], x["ema255"].e[n - 1]) else None


@rule("PositiveVolumeIndex")
def _(d, t, p, x, q):
    v, n = t["pvi"], len(t["pvi"])
    if n < 255:
        return None
    m = x["ema255"]
    a, b, ea, eb = m.v[n - 2], m.v[n - 1], m.e[n - 2], m.e[n - 1]
    if q.lt(v[-2], a, ea) and q.gt(v[-1], b, eb):
        return "buy"
    if q.gt(v[-2], a, ea) and q.lt(v[-1], b, eb):
        return "sell"


@rule("Performance")
def _(d, t, p, x, q):
    v = t["prf"][-1]
    if p["mode"] == "LONG":
        return "sell" if v >= p["target"] else None
    return "buy" if v <= p["target"] else None


@rule("ProjectionBands")
def _(d, t, p, x, q):
    u, lo, c = t["upper_band"][-1], t["lower_band"][-1], d["close"][-1]
    w = 0.15 * (u - lo)
    if u - c < w:
        return "sell"
    if c - lo < w:
        return "buy"


@rule("ProjectionOscillator")
def _(d, t, p, x, q):
    v, g = t["posc"], t["trigger_line"]
    if len(v) < 4:
        return None
    if v[-2] < 15 < v[-1]:
        return "buy"
    if v[-2] > 85 > v[-1]:
        return "sell"
    under, over = v[-4:] < g[-4:], v[-4:] > g[-4:]
    if under[0] and under[1] and over[2] and over[3]:
        return "buy"
    if over[0] and over[1] and under[2] and under[3]:
        return "sell"


@rule("Qstick")
def _(d, t, p, x, q):
    v = t["qstick"]
    if len(v) < 4:
        return None
    if v[-4] < v[-3] < 0 < v[-2] < v[-1]:
        return "buy"
    if v[-4] > v[-3] > 0 > v[-2] > v[-1]:
        return "sell"


@rule("RangeIndicator")
def _(d, t, p, x, q):
    v, c = t["ri"], d["close"]
    if len(v) < 2:
        return None
    if v[-2] < 20 < v[-1]:
        return "buy" if c[-2] < c[-1] else "sell"
    if v[-2] < 70 < v[-1]:
        k = np.flatnonzero(v < 20)
        if not len(k):
            return None
        return "sell" if c[k[-1]] < c[-1] else "buy"


@rule("StandardDeviation")
def _(d, t, p, x, q):
    n = len(t["sd"])
    if not t["sd"][-1] > 2:
        return None
    m, e, c = x["sma"].v[n - 1], x["sma"].e[n - 1], d["close"][-1]
    if q.gt(c, m, e):
        return "sell"
    return "buy" if q.lt(c, m, e) else None


@rule("StochasticOscillator")
def _(d, t, p, x, q):
    k, s = t["%K"], t["%D"]
    if len(k) < 2:
        return None
    if any(v[-2] > 80.0 > v[-1] for v in (k, s)):
        return "sell"
    if any(v[-2] < 20.0 < v[-1] for v in (k, s)):
        return "buy"
    if k[-2] > k[-1] and k[-1] < s[-1] and k[-1] > 80.0:
        return "sell"
    if k[-2] < k[-1] and k[-1] > s[-1] and k[-1] < 20.0:
        return "buy"


@rule("TypicalPrice")
def _(d, t, p, x, q):
    n = len(t["tp"])
    if n < p["period"]:
        return None
    return "buy" if q.gt(t["tp"][-1], x["sma"].v[n - 1], x["sma"].e[n - 1]) else None


@rule("UltimateOscillator")
def _(d, t, p, x, q):
    v, c = t["uosc"], d["close"]
    if len(v) < 30:
        return None
    w = v[-30:]
    if np.isnan(w).all() or np.isnan(w[-1]):
        return None
    if int(np.argmin(c[-30:])) == int(np.nanargmin(w)) or not (w < 30).any():
        return None
    return "buy" if np.nanmax(np.concatenate([w[:-1], [-np.inf]])) < w[-1] and not np.isnan(w[:-1]).all() else None


@rule("VerticalHorizontalFilter")
def _(d, t, p, x, q):
    v, n = t["vhf"], len(t["vhf"])
    if n < 3:
        return None
    if v[-3] < v[-2] < v[-1]:  # trend: follow the average
        return RULES["DoubleExponentialMovingAverage"](d, {"dema": x["dema5"][:n]}, p, x, q) if n >= 5 else None
    if v[-3] > v[-2] > v[-1]:  # no trend: follow the momentum
        return RULES["Momentum"](d, {"mom": x["mom12"][:n]}, p, x, q) if n >= 12 else None


@rule("WilliamsAccumulationDistribution")
def _(d, t, p, x, q):
    v, c = t["wad"], d["close"]
    if len(c) < 30:
        return None
    if c[-30:].min() == c[-1] and np.nanmin(v[-30:]) != v[-1]:
        return "buy"
    if c[-30:].max() == c[-1] and np.nanmax(v[-30:]) != v[-1]:
        return "sell"


@rule("WilliamsR")
def _(d, t, p, x, q):
    v = t["wr"]
    if len(v) < 2:
        return None
    past = v[:-1]
    lo, hi = np.flatnonzero(past <= -80), np.flatnonzero(past >= -20)
    a, b = (lo[-1] if len(lo) else -1), (hi[-1] if len(hi) else -1)
    if a > b and v[-2] < -50 < v[-1]:
        return "buy"
    if a < b and v[-2] > -50 > v[-1]:
        return "sell"


# values a rule looks at: (column, rows back); used to tell when it has nothing to judge by
LOOKS = {n: [(c, 1), (c, 2)] for n, c in (
    ("ChandeMomentumOscillator", "cmo"), ("IntradayMomentumIndex", "imi"), ("RelativeMomentumIndex", "rmi"),
    ("RelativeStrengthIndex", "rsi"), ("RelativeVolatilityIndex", "rvi"), ("StochasticMomentumIndex", "smi"),
    ("SwingIndex", "swi"), ("ForecastOscillator", "fosc"), ("KlingerOscillator", "ko"), ("LinearRegressionSlope", "lrs"),
    ("PriceOscillator", "posc"), ("DetrendedPriceOscillator", "dpo"), ("EaseOfMovement", "emv_ma"),
    ("LinearRegressionIndicator", "lri"), ("TimeSeriesForecast", "tsf"), ("WeightedClose", "wc"), ("WildersSmoothing", "ws"),
    ("ParabolicSAR", "sar"), ("MarketFacilitationIndex", "mfi"), ("RangeIndicator", "ri"), ("WilliamsR", "wr"),
    ("ChaikinMoneyFlow", "cmf"), ("ChaikinOscillator", "co"), ("Momentum", "mom"), ("MedianPrice", "mp"))}
LOOKS.update({n: [(c, 1), (c, 2), (c, 3)] for n, c in (
    ("OnBalanceVolume", "obv"), ("PriceAndVolumeTrend", "pvt"), ("PriceRateOfChange", "prc"), ("VolumeRateOfChange", "vrc"),
    ("VolatilityChaikins", "vch"), ("VolumeOscillator", "vosc"), ("VerticalHorizontalFilter", "vhf"))})
LOOKS.update({n: [(c, 1)] for n, c in (
    ("TripleExponentialMovingAverage", "tema"), ("DoubleExponentialMovingAverage", "dema"), ("CommodityChannelIndex", "cci"),
    ("AverageTrueRange", "atr"), ("StandardDeviation", "sd"), ("TypicalPrice", "tp"), ("Performance", "prf"),
    ("NegativeVolumeIndex", "nvi"), ("AccumulationDistributionLine", "adl"), ("UltimateOscillator", "uosc"),
    ("WilliamsAccumulationDistribution", "wad"), ("MassIndex", "mi"))})
LOOKS.update({
    "BollingerBands": [("upper_band", 1), ("lower_band", 1)], "Envelopes": [("upper_band", 1), ("lower_band", 1)],
    "PriceChannel": [("highest_high", 1), ("lowest_low", 1)], "ProjectionBands": [("upper_band", 1), ("lower_band", 1)],
    "Qstick": [("qstick", k) for k in (1, 2, 3, 4)], "PositiveVolumeIndex": [("pvi", 1), ("pvi", 2)],
    "IchimokuCloud": [("senkou_a", 1), ("senkou_b", 1), ("tenkan_sen", 2), ("kijun_sen", 2)],
    "DirectionalMovementIndex": [("+di", 1), ("+di", 2), ("-di", 1), ("-di", 2), ("adxr", 1)],
    "ProjectionOscillator": [("posc", 1), ("posc", 2)], "FibonacciRetracement": [("rl_50.0", 1), ("rl_50.0", 2)],
    "MovingAverageConvergenceDivergence": [("macd", 1), ("macd", 2)]})
# fewest rows for which the rule is defined at all
ROWS = {"AverageTrueRange": 10, "ChaikinMoneyFlow": 3, "ChaikinOscillator": 90, "Momentum": 9, "NegativeVolumeIndex": 255,
        "PositiveVolumeIndex": 255, "ProjectionOscillator": 4, "Qstick": 4, "UltimateOscillator": 30,
        "WilliamsAccumulationDistribution": 30, "VerticalHorizontalFilter": 3, "FibonacciRetracement": 2, "MassIndex": 2,
        "AccumulationDistributionLine": 2}


def undefined(name, t, p, n):
    """Today's decision lacks a value it is defined by: it has to be hold."""
    looks = LOOKS.get(name) or [("ma-" + p["ma_type"], 1)] if name == "MovingAverage" else LOOKS.get(name, ())
    if name == "StochasticOscillator":
        return n < 2 or bool(np.isnan(t["%K"][-1])) and bool(np.isnan(t["%D"][-1]))
    if n < ROWS.get(name, 1) or any(n < k or np.isnan(t[c][-k]) for c, k in looks):
        return True
    if name == "MedianPrice" and n < p["period"] + 1:
        return True
    if name == "TypicalPrice" and n < p["period"]:
        return True
    if name == "Momentum":  # the nine periods average of yesterday
        return int((~np.isnan(t["mom"][:n - 1])).sum()) < 9
    if name == "PositiveVolumeIndex":  # the yearly average of yesterday
        return int((~np.isnan(t["pvi"][:n - 1])).sum()) < 255
    if name == "NegativeVolumeIndex":
        return int((~np.isnan(t["nvi"][:n])).sum()) < 255
    if name == "VerticalHorizontalFilter":  # rising: average of 5 periods, falling: momentum of 12 and its average
        v = t["vhf"]
        return v[-3] < v[-2] < v[-1] and n < 9 or v[-3] > v[-2] > v[-1] and n < 22
    return False


# values that the rules compare with
LEVELS = {"ChandeMomentumOscillator": (-50, 50), "IntradayMomentumIndex": (30, 70), "RelativeMomentumIndex": (30, 70),
          "RelativeStrengthIndex": (30, 70), "RelativeVolatilityIndex": (40, 60), "StochasticMomentumIndex": (-40, 40),
          "CommodityChannelIndex": (-100, 100), "ProjectionOscillator": (15, 85), "StochasticOscillator": (20, 80),
          "WilliamsR": (-80, -50, -20), "UltimateOscillator": (30,), "MassIndex": (26.5, 27), "RangeIndicator": (20, 70),
          "StandardDeviation": (2,), "DirectionalMovementIndex": (20,), "Performance": ()}


def script(name, data, d, seed, warm=0):
    """The indicator's data with some values moved onto what its rule compares them with (thresholds, neighbours, the
    other columns, prices), and, with warm, the first rows undefined."""
    r = np.random.default_rng(seed)
    out = data.copy()
    n, cols = len(out), list(out.columns)
    if not n:
        return out
    levels = list(LEVELS.get(name, (0,)))
    prices = [c for c in ("close", "close", "high", "low") if c in d]
    p = float(r.uniform(0.1, 0.7))
    few = None
    if levels and r.random() < 0.4:  # only few distinct values: histories that stay at, and just beyond, a level
        few = [z + w for z in levels for w in (0, 0, 1e-4, -1e-4, 0.02, -0.02, 3, -3)]
        few = [few[int(k)] for k in r.integers(0, len(few), int(r.integers(2, 6)))]
        p = float(r.uniform(0.5, 1.0))
    if len(cols) > 1 and r.random() < 0.35:  # two lines that touch, cross and part, the others at and beyond levels
        a, b = (cols[int(k)] for k in r.choice(len(cols), 2, replace=False))
        x, y = out[a].to_numpy().copy(), out[b].to_numpy().copy()
        for i in range(n):
            if x[i] == x[i] and y[i] == y[i] and r.random() < 0.8:
                y[i] = x[i] + float(r.choice([0, 0, 0, 1, -1, 1e-4, -1e-4, 7, -7]))
                y[i] = int(y[i]) if y.dtype.kind in "iu" else round(y[i], 4)
        out[b] = y
        for c in cols:
            if c not in (a, b) and levels:
                v = out[c].to_numpy().copy()
                for i in range(n):
                    if v[i] == v[i] and r.random() < 0.5:
                        z = levels[int(r.integers(len(levels)))] + float(r.choice([0, 1e-4, -1e-4, 12]))
                        v[i] = int(z) if v.dtype.kind in "iu" else round(z, 4)
                out[c] = v
        if warm:
            for c in cols:
                v = out[c].to_numpy().copy()
                if n > 1 and v[1] != v[1]:
                    v[:warm] = np.nan
                    out[c] = v
        return out
    plateaus = bool(levels) and r.random() < (0.25 if len(levels) < 2 else 0.45)  # few long stays between levels: what the rule remembers lies far back
    for c in cols:
        v = out[c].to_numpy().copy()
        whole = v.dtype.kind in "iu"
        if plateaus:
            pool = [z + w for z in levels for w in (1e-4, -1e-4, 0.02, -0.02, 0.4, -0.4, 3, -3)]
            pool += [(a + b) / 2 for a, b in zip(levels, levels[1:])] * 3
            cuts = set(int(k) for k in r.integers(0, n, int(r.integers(1, 6)))) | {0}
            cuts |= {n - 1} if r.random() < 0.7 else set()
            cuts |= {k + 1 for k in cuts if r.random() < 0.5 and k + 1 < n}
            path = {}
            if len(levels) > 1 and r.random() < 0.6:  # beyond a level, then long between two, then beyond one again
                j = int(r.integers(len(levels) - 1))
                lo, hi = levels[j], levels[j + 1]
                ends = [levels[0] - 0.3, levels[-1] + 0.3, lo - 0.01, hi + 0.01]
                k = int(n - 2 - r.integers(0, max(1, n - 4)))
                cuts = {0, max(k, 1), max(k, 1) + 1, n - 1}
                path = {max(k, 1): ends[int(r.integers(4))], max(k, 1) + 1: lo + (hi - lo) * float(r.choice([0, 0.2, 0.5, 1])),
                        n - 1: ends[int(r.integers(4))]}
            z = 0.0
            for i in range(n):
                if i in path:
                    z = path[i]
                elif i in cuts:
                    z = pool[int(r.integers(len(pool)))]
                if v[i] == v[i]:
                    v[i] = int(z) if whole else round(z, 4)
            out[c] = v
            continue
        cold = n > 1 and v[1] != v[1]  # a column whose values begin later than on the second row may begin any time later
        for i in range(n):
            if r.random() > p or v[i] != v[i]:
                continue
            k = int(r.integers(0, 9))
            if few and k < 8:
                z = few[int(r.integers(len(few)))]
            elif k <= 2 and levels:
                z = levels[int(r.integers(len(levels)))]
            elif k == 3 and i:
                z = v[i - 1]
            elif k == 4 and levels:
                z = levels[int(r.integers(len(levels)))] + float(r.choice([-1, 1])) * float(r.choice([1e-4, 1, 5]))
            elif k in (5, 6) and prices:
                z = d[prices[int(r.integers(len(prices)))]][i]
            elif k == 7 and len(cols) > 1:
                z = out[cols[int(r.integers(len(cols)))]].iat[i]
            elif k == 8 and i:
                z = v[i - 1] + float(r.choice([-1, 1])) * 1e-4
            else:
                continue
            if z == z and abs(z) < 1e15:
                v[i] = int(z) if whole else round(float(z), 4)
        if warm and cold:
            v[:warm] = np.nan
        out[c] = v
    return out


def averages(name, d, t, p, observe=None):
    """Averages a rule needs besides the indicator's data (as ev.V, for all rows)."""
    x = {}
    c = d.get("close")
    exact = c is not None and ev._dy(c) and len(c) < 4000

    def sma(k, lo=None):
        n = len(c)
        v, e = np.full(n, np.nan), np.zeros(n)
        for i in range((lo or k) - 1, n):
            w = c[max(0, i - k + 1):i + 1]
            v[i] = w.mean()
            e[i] = 0.0 if exact else 64 * ev.U * k * np.abs(c[:i + 1]).max()
        return ev.V(v, e)
    if name == "AverageTrueRange":
        x["sma5"], x["sma10"] = sma(5), sma(10, 5)
    elif name == "ChaikinOscillator":
        x["sma90"] = sma(90)
    elif name == "TypicalPrice":
        x["sma"] = sma(p["period"])
    elif name == "StandardDeviation":
        m = sma(p["period"])
        x["sma"] = ev.V(np.round(m.v, 4)) if exact else m.round(4)
    elif name == "MassIndex":
        x["ema9"] = ev.ema(c, 9, minp=9)
    elif name == "MedianPrice":
        x["ema"] = ev.ema(c, p["period"], minp=p["period"])
    elif name == "Momentum":
        x["ema_mom"] = ev.ema(t["mom"], 9, minp=9)
    elif name in ("NegativeVolumeIndex", "PositiveVolumeIndex"):
        x["ema255"] = ev.ema(list(t.values())[0], 255, minp=255)
    elif name == "VerticalHorizontalFilter":
        x["dema5"], x["mom12"] = observe("DoubleExponentialMovingAverage", "dema", 5), observe("Momentum", "mom", 12)
        if x["mom12"] is not None:
            x["ema_mom"] = ev.ema(x["mom12"], 9, minp=9)
    return x
