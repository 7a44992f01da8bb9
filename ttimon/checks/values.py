"""V01-V05: relations between the values of twin executions and of several indicators."""
import numpy as np
import pandas as pd

from .. import gen, lib, ref, refsig, spec as sp
from . import signals
from ..ev import V, ema, rmean, rsum
from ..runner import Check

import tti.indicators as ti  # noqa: F401  (loaded by lib)


def observe(name, df, params, data=None):
    """Observed columns as V: the value and how far a correct evaluation may be from it."""
    if data is None:
        data = lib.build(name, df, params).getTiData()
    S = sp.SPECS[name]
    with np.errstate(all="ignore"):
        want = ref.REF[name](gen.arrays(df), **params)
    out = {}
    for c, x in want.items():
        o = data[c].to_numpy(dtype=float)
        if len(o) != len(x.v):
            raise ValueError("%s: %d rows, expected %d" % (name, len(o), len(x.v)))
        if data[c].dtype.kind in "iu" or name in ("AccumulationDistributionLine", "OnBalanceVolume"):
            half = np.where(x.e > 0, 1.0, 0.0)
        else:
            half = 0.5 * 10.0 ** -S.digits * (1 + 1e-6)
        out[c] = V(o, np.where(np.isfinite(o), half, 0.0) + x.e + np.where(np.isfinite(o), 1e-15 * np.abs(o), 0))
    return out


def agree(mon, what, a, b, extra=0.0, kind="values_compared", mask=None, **ctx):
    """a and b (V) denote the same quantity."""
    n = min(len(a.v), len(b.v))
    with np.errstate(all="ignore"):
        e = a.e[:n] + b.e[:n] + extra
        bad, amb = lib.mismatch(a.v[:n], b.v[:n], e, e)
        if mask is not None:
            bad &= mask[:n]
            amb |= ~mask[:n]
    mon.ev(kind, n - int(amb.sum()))
    mon.ev("rows_not_decidable_in_float64", int(amb.sum()))
    if len(a.v) != len(b.v):
        mon.fail(what + " (different number of rows)", rows=[len(a.v), len(b.v)], **ctx)
    if bad.any():
        i = int(np.argmax(bad))
        mon.fail(what, row=i, first=float(a.v[i]), second=float(b.v[i]), tolerance=float(e[i]),
                 rows=n, differing=int(bad.sum()), **ctx)


def tail(x, k):
    return V(x.v[k:], x.e[k:])


def head(x, k):
    return V(x.v[:k], x.e[:k])


# ------------------------------------------------------------------ V01
CAUSAL = [n for n in sp.NAMES if sp.SPECS[n].causal]
NV1 = {"quick": 140, "thorough": 1600}


def v01_cases(rng, tier):
    out = []
    for name in CAUSAL:
        S = sp.SPECS[name]
        for k in range(NV1[tier]):
            p = S.sample(rng, big=60, far=0.04)
            n = sp.pick_n(rng, S.need(p), tier) + int(rng.integers(1, 30))
            mode = ["cut", "other", "extreme", "flat", "append", "zero"][k % 6]
            if k % 64 == 6:  # long histories; mostly with a future on another scale
                n = int(rng.integers(1100, 2400 if k % 128 == 6 else 4300))
                mode = str(rng.choice(["extreme", "extreme", "extreme", "other", "append", "cut"]))
            out.append({"ind": name, "params": p, "data": gen.sample(rng, n), "mode": mode,
                        "pick": int(rng.integers(1 << 30)), "fut": gen.sample(rng, n)})
    return out


def v01(case, mon):
    name, p = case["ind"], case["params"]
    S = sp.SPECS[name]
    df = gen.make(case["data"])
    n, need = len(df), S.need(p)
    r = np.random.default_rng(case["pick"])
    full = observe(name, df, p)
    for cut in sorted({int(r.integers(need, n)), min(n - 1, need + int(r.integers(0, 6)))}):
        mode = case["mode"]
        fut = gen.make(case["fut"])
        if mode == "cut":
            twin = df.iloc[:cut]
        elif mode == "append":
            fut.index = df.index[-1] + (fut.index - fut.index[0]) + pd.Timedelta(days=3)
            twin = pd.concat([df, fut])
            cut = n
        else:
            fut.index = df.index
            fut = fut.iloc[cut:]
            if mode == "extreme":
                fut = fut * float(r.choice([1e-3, 1e-2, 1e3, 1e4]))
            elif mode == "flat":
                fut[["open", "high", "low", "close"]] = float(df["close"].iloc[cut - 1])
            elif mode == "zero":
                fut["volume"] = 0.0
                fut[["open", "high", "low", "close"]] = np.repeat(fut[["close"]].to_numpy(), 4, axis=1)
            twin = pd.concat([df.iloc[:cut], fut])
        other = observe(name, twin, p)
        for c in full:
            agree(mon, "a value changes with later rows", head(full[c], cut), head(other[c], cut), indicator=name,
                  params=p, column=c, cut=cut, future=mode)
        mon.ev("twins")
        mon.state(name, p, mode, cut - need if cut - need < 12 else (cut - need) // 12 * 12, case["data"]["regime"])


# ------------------------------------------------------------------ V02
# column -> (degree in price, degree in volume); RangeIndicator mixes ratios and differences by definition
DEG = {}
for _n in sp.NAMES:
    DEG[_n] = (0, 0)
for _n in ("AverageTrueRange", "BollingerBands", "DetrendedPriceOscillator", "DoubleExponentialMovingAverage", "Envelopes",
           "FibonacciRetracement", "IchimokuCloud", "LinearRegressionIndicator", "LinearRegressionSlope", "MedianPrice",
           "MovingAverage", "MovingAverageConvergenceDivergence", "ParabolicSAR", "PriceChannel", "ProjectionBands", "Qstick",
           "StandardDeviation", "SwingIndex", "TimeSeriesForecast", "TripleExponentialMovingAverage", "TypicalPrice",
           "WeightedClose", "WildersSmoothing", "WilliamsAccumulationDistribution"):
    DEG[_n] = (1, 0)
for _n in ("AccumulationDistributionLine", "ChaikinOscillator", "KlingerOscillator", "OnBalanceVolume",
           "PriceAndVolumeTrend", "VolumeOscillator"):
    DEG[_n] = (0, 1)
DEG["EaseOfMovement"] = (2, -1)
DEG["MarketFacilitationIndex"] = (1, -1)
del DEG["RangeIndicator"]
# intermediate results rounded to four decimals: absolute effect (as a price) per result
ROUNDED = {"TimeSeriesForecast": 1.1e-4, "MovingAverageConvergenceDivergence": 1.1e-4, "BollingerBands": 0.6e-4,
           "MovingAverage": 1.1e-4, "ForecastOscillator": None, "ProjectionOscillator": None, "RelativeStrengthIndex": None}
LIVELY = ("walk", "sine", "switch", "gap", "up", "down", "zigzag", "spike")
# indicators whose rule only compares dimensionless data, or prices that scale exactly
FREE_SIGNAL = ("ChandeMomentumOscillator", "CommodityChannelIndex", "DirectionalMovementIndex", "IntradayMomentumIndex",
               "RelativeMomentumIndex", "RelativeVolatilityIndex", "StochasticMomentumIndex", "StochasticOscillator",
               "UltimateOscillator", "WilliamsR", "PriceRateOfChange", "ChaikinMoneyFlow", "Performance")
# rules that compare with an average rounded to four decimals on the way
NESTED = ("StandardDeviation", "ChaikinOscillator", "VerticalHorizontalFilter")
NV2 = {"quick": 170, "thorough": 1500}


def v02_cases(rng, tier):
    out = []
    for name in DEG:
        S = sp.SPECS[name]
        for k in range(NV2[tier]):
            p = S.sample(rng, far=0.04)
            n = sp.pick_n(rng, S.need(p), tier, short=k % 10 > 0) if k % 160 != 5 else int(rng.integers(1100, 3000))
            fine = name in ROUNDED and ROUNDED[name] is None
            d = gen.sample(rng, n, regime=str(rng.choice(LIVELY)) if fine else None,
                           grid="int" if fine else None)
            if d["regime"] == "penny" and k % 3:
                d["regime"] = "walk"
            out.append({"ind": name, "params": p, "data": d, "lift": int(2 ** rng.integers(9, 13)) if fine else 1,
                        "ps": float(2.0 ** rng.integers(-4, 9)) if k % 3 != 1 else 1.0,
                        "vs": float(2.0 ** rng.integers(-4, 9)) if k % 3 != 0 else 1.0,
                        "rule": k % 10 == 2 and n < 110 and name not in NESTED})
    return out


PRICES = ["open", "high", "low", "close"]


def v02(case, mon):
    name, p = case["ind"], case["params"]
    df = gen.make(case["data"])
    df[PRICES] = df[PRICES] * float(case["lift"])
    twin = df.copy()
    ps, vs = case["ps"], case["vs"]
    twin[PRICES] = twin[PRICES] * ps
    twin["volume"] = twin["volume"] * vs
    ia, ib = lib.build(name, df, p), lib.build(name, twin, p)
    da, db = ia.getTiData(), ib.getTiData()
    a, b = observe(name, df, p, da), observe(name, twin, p, db)
    dp, dv = DEG[name]
    f = ps ** dp * vs ** dv
    lost = ROUNDED.get(name, 0.0)
    for c in a:
        x = a[c] * f
        y = b[c]
        if c.startswith("target_"):
            x = a[c]
        extra = 0.0
        if lost is None:  # values sized in the thousands: what the rounding of intermediates can do to a percentage
            extra = 100 * 1e-4 * 40 / min(float(case["lift"]), float(case["lift"]) * ps) + 1e-4
        elif lost and (name != "MovingAverage" or p.get("ma_type") in ("time_series",)):
            extra = lost * (1 + f)
        if name in ("AccumulationDistributionLine", "ChaikinOscillator"):
            extra = 2.0 * (1 + f)  # whole numbers
        mask = None
        if name == "SwingIndex":  # limited to +-100
            mask = (np.abs(a[c].v) < 99.9) | (f >= 1)
            x = V(np.clip(x.v, -100, 100), x.e)
            y = V(np.clip(y.v, -100, 100), y.e)
        agree(mon, "change of units changes the result", x, y, extra=extra, mask=mask, indicator=name, params=p, column=c,
              price_factor=ps, volume_factor=vs)
    if name in FREE_SIGNAL and lib.same(da.to_numpy(dtype=float), db.to_numpy(dtype=float)):
        mon.ev("signals_compared")
        mon.check(ia.getTiSignal() == ib.getTiSignal(), "change of units changes the signal", indicator=name, params=p,
                  price_factor=ps, volume_factor=vs)
    mon.ev("twins")
    mon.state(name, p, ps, vs, case["data"]["regime"])
    if case["rule"]:
        rule_twin(name, p, df, ps, vs, case["data"]["seed"], mon)


def rule_twin(name, p, df, ps, vs, seed, mon):
    """The rule itself in other units: the twin reports exactly the base's data times the factor, so every comparison of the
    rule has the same outcome, on the knife edge as well."""
    arr = gen.arrays(df)
    base = signals.reporting(name, df, p, (lambda data: data) if seed % 3 == 0 else
                             lambda data: refsig.script(name, data, arr, seed, 0))
    if base is None:
        mon.ev("rules_skipped:" + name)
        return
    data = base.getTiData()
    if ps == 1.0 and vs == 1.0:
        ps, vs = 256.0, 0.125
    sa = [s for s in lib.simulate(base, df)[0]["signal"]] + [base.getTiSignal()]
    dp, dv = DEG[name]
    for g in (1, -2):
        f = (ps ** dp * vs ** dv) ** g
        twin = df.copy()
        twin[PRICES] = twin[PRICES] * ps ** g
        twin["volume"] = twin["volume"] * vs ** g
        other = signals.reporting(name, twin, p, lambda _: data * f)
        sb = [s for s in lib.simulate(other, twin)[0]["signal"]] + [other.getTiSignal()]
        mon.ev("rules_compared")
        mon.ev("rule_signals", len(sa))
        mon.check(sa == sb, "change of units changes a signal", indicator=name, params=p, price_factor=ps ** g,
                  volume_factor=vs ** g, rows=[(i, str(x), str(y)) for i, (x, y) in enumerate(zip(sa, sb)) if x != y][:5])


# ------------------------------------------------------------------ V03
RANGE = {"RelativeStrengthIndex": (0, 100), "RelativeMomentumIndex": (0, 100), "IntradayMomentumIndex": (0, 100),
         "RelativeVolatilityIndex": (0, 100), "StochasticOscillator": (0, 100), "UltimateOscillator": (0, 100),
         "DirectionalMovementIndex": (0, 100), "RangeIndicator": (0, 100), "ProjectionOscillator": (0, 100),
         "WilliamsR": (-100, 0), "ChandeMomentumOscillator": (-100, 100), "StochasticMomentumIndex": (-100, 100),
         "SwingIndex": (-100, 100), "VerticalHorizontalFilter": (0, 1), "ChaikinMoneyFlow": (-1, 1),
         "AverageTrueRange": (0, np.inf), "StandardDeviation": (0, np.inf), "MarketFacilitationIndex": (0, np.inf),
         "NegativeVolumeIndex": (0, np.inf), "PositiveVolumeIndex": (0, np.inf), "MassIndex": (0, np.inf),
         "Momentum": (0, np.inf), "PriceRateOfChange": (-100, np.inf), "VolumeRateOfChange": (-100, np.inf),
         "VolatilityChaikins": (-100, np.inf), "PriceOscillator": (-100, np.inf)}
ORDER = {"BollingerBands": ("lower_band", "middle_band", "upper_band"), "Envelopes": ("lower_band", "upper_band"),
         "PriceChannel": ("lowest_low", "highest_high"), "ProjectionBands": ("lower_band", "upper_band"),
         "FibonacciRetracement": ("rl_100.0", "rl_61.8", "rl_50.0", "rl_38.2", "rl_23.6", "rl_0.0")}
# reported value lies within the extremes of these prices over the last k rows (None: all rows so far)
WITHIN = {"MovingAverage": ("close", "close"), "WildersSmoothing": ("close", "close"), "TypicalPrice": ("low", "high"),
          "WeightedClose": ("low", "high"), "MedianPrice": ("low", "high"), "IchimokuCloud": ("low", "high"),
          "ParabolicSAR": ("low", "high"), "PriceChannel": ("low", "high"), "FibonacciRetracement": ("close", "close"),
          "BollingerBands": ("close", "close")}
V03_NAMES = tuple(n for n in sp.NAMES if n in RANGE or n in ORDER or n in WITHIN)
NV3 = {"quick": 320, "thorough": 2600}


def v03_cases(rng, tier):
    out = []
    for name in V03_NAMES:
        S = sp.SPECS[name]
        for k in range(NV3[tier]):
            p = S.sample(rng, big=60, far=0.04)
            n = int(rng.integers(1100, 4300)) if k % 160 == 6 else sp.pick_n(rng, S.need(p), tier)
            out.append({"ind": name, "params": p, "data": gen.sample(rng, n),
                        "shock": int(rng.integers(0, 4))})
    return out


def window_of(name, c, p):
    q = sp.SPECS[name].full(p)
    if name == "MovingAverage":
        return {"simple": q["period"], "triangular": 2 * q["period"] - 1}.get(q["ma_type"])
    return {"TypicalPrice": 1, "WeightedClose": 1, "MedianPrice": 1, "PriceChannel": q.get("period", 0) + 1,
            "BollingerBands": q.get("period")}.get(name)


def v03(case, mon):
    name, p = case["ind"], case["params"]
    df = gen.make(case["data"])
    n = len(df)
    if case["shock"] == 1:  # closes on the bar's extremes
        r = np.random.default_rng(case["data"]["seed"])
        df["close"] = np.where(r.random(n) < 0.5, df["high"], df["low"])
    elif case["shock"] == 2:
        r = np.random.default_rng(case["data"]["seed"])
        df["close"] = np.where(r.random(n) < 0.3, df["high"], df["close"])
        df["open"] = np.where(r.random(n) < 0.3, df["low"], df["open"])
    o = observe(name, df, p)
    with np.errstate(all="ignore"):
        for c, x in o.items():
            if name in RANGE and c != "trigger_line":
                lo, hi = RANGE[name]
                if name == "ProjectionOscillator":  # the bands it divides by are rounded to four decimals
                    b = observe("ProjectionBands", df, p)
                    w = b["upper_band"].v - b["lower_band"].v
                    x = V(x.v, x.e + np.where(w > 0, 100 * 1.1e-4 / w, np.inf))
                bad = ((x.v < lo - x.e) | (x.v > hi + x.e)) & np.isfinite(x.e)
                mon.ev("range_rows", int(np.isfinite(x.v).sum()))
                if bad.any():
                    i = int(np.argmax(bad))
                    mon.fail("value outside the documented range", indicator=name, params=p, column=c, row=i,
                             value=float(x.v[i]), range=[lo, hi])
            if name in WITHIN and not (name == "BollingerBands" and c != "middle_band"):
                if name == "MovingAverage" and p.get("ma_type") == "time_series":
                    continue
                a, b = WITHIN[name]
                k = window_of(name, c, p)
                s = pd.Series(df[a].to_numpy()), pd.Series(df[b].to_numpy())
                if name == "FibonacciRetracement":
                    lo, hi = np.full(n, df[a].min()), np.full(n, df[b].max())
                elif k is None:
                    lo, hi = s[0].cummin().to_numpy(), s[1].cummax().to_numpy()
                else:
                    lo, hi = s[0].rolling(k, 1).min().to_numpy(), s[1].rolling(k, 1).max().to_numpy()
                bad = ((x.v < lo - x.e) | (x.v > hi + x.e)) & np.isfinite(x.e)
                mon.ev("average_rows", int(np.isfinite(x.v).sum()))
                if bad.any():
                    i = int(np.argmax(bad))
                    mon.fail("average outside the prices it averages", indicator=name, params=p, column=c, row=i,
                             value=float(x.v[i]), range=[float(lo[i]), float(hi[i])])
        if name in ORDER:
            cols = ORDER[name]
            for a, b in zip(cols, cols[1:]):
                bad = (o[a].v > o[b].v + o[a].e + o[b].e) & np.isfinite(o[a].e + o[b].e)
                mon.ev("order_rows", int(np.isfinite(o[a].v).sum()))
                if bad.any():
                    i = int(np.argmax(bad))
                    mon.fail("lower line above upper line", indicator=name, params=p, row=i, lower=[a, float(o[a].v[i])],
                             upper=[b, float(o[b].v[i])])
        if name == "ProjectionBands":
            u, lo = o["upper_band"], o["lower_band"]
            bad = ((df["high"].to_numpy() > u.v + u.e) | (df["low"].to_numpy() < lo.v - lo.e)) & np.isfinite(u.e + lo.e)
            mon.ev("order_rows", int(np.isfinite(u.v).sum()))
            mon.check(not bad.any(), "projection bands do not contain the bar", indicator=name, params=p,
                      row=int(np.argmax(bad)) if bad.any() else None)
    mon.state(name, p, case["data"]["regime"], case["shock"], n // 16)


# ------------------------------------------------------------------ V04
IDS = {}


def ident(name, draw):
    def deco(f):
        IDS[name] = (f, draw)
        return f
    return deco


def _per(lo=1, hi=40):
    return lambda r: {"p": int(r.integers(lo, hi)) if r.random() < 0.5 else int(r.integers(lo, 12))}


def as_close(x, df):
    """A frame whose close is the defined tail of a series (V); also the number of rows cut off."""
    v = x.v
    ok = np.flatnonzero(~np.isnan(v))
    k = int(ok[0]) if len(ok) else len(v)
    return pd.DataFrame({"close": v[k:]}, index=df.index[k:len(v)]), k


def O(name, df, **p):
    return observe(name, df, p)


def pad(x, k):
    return V(np.concatenate([np.full(k, np.nan), x.v]), np.concatenate([np.zeros(k), x.e]))


@ident("forecast = regression + slope", _per(2))
def _(df, p, eq):
    a, b, c = O("TimeSeriesForecast", df, period=p)["tsf"], O("LinearRegressionIndicator", df, period=p)["lri"], \
        O("LinearRegressionSlope", df, period=p)["lrs"]
    eq(a, b + c)
    eq(O("MovingAverage", df, period=p, ma_type="time_series")["ma-time_series"], a)


@ident("forecast oscillator from forecast", _per(2))
def _(df, p, eq):
    c = V(df["close"].to_numpy())
    eq(O("ForecastOscillator", df, period=p)["fosc"], 100.0 * (c - O("TimeSeriesForecast", df, period=p)["tsf"].shift(1)) / c)


@ident("Bollinger bands = average +- deviation", lambda r: dict(_per()(r), s=float(r.choice([1, 2, 3, 0.5, 2.5]))))
def _(df, p, eq, s):
    b = O("BollingerBands", df, period=p, std_number=s)
    m, sd = O("MovingAverage", df, period=p)["ma-simple"], O("StandardDeviation", df, period=p)["sd"]
    eq(b["middle_band"], m)
    eq(b["upper_band"] - b["middle_band"], s * sd, 1e-4)
    eq(b["middle_band"] - b["lower_band"], s * sd, 1e-4)


@ident("envelopes = shifted average", lambda r: dict(_per()(r), s=float(r.choice([0.1, 0.01, 0.5, 0.25]))))
def _(df, p, eq, s):
    e, m = O("Envelopes", df, period=p, shift=s), O("MovingAverage", df, period=p)["ma-simple"]
    eq(e["upper_band"], (1 + s) * m)
    eq(e["lower_band"], (1 - s) * m)


@ident("Chaikin oscillator from the accumulation line", lambda r: {})
def _(df, eq):
    a = O("AccumulationDistributionLine", df)["adl"]
    eq(O("ChaikinOscillator", df)["co"], ema(a, 3, minp=3) - ema(a, 10, minp=10), 1e-4)


@ident("Chaikin money flow = change of the accumulation line", _per(1, 25))
def _(df, p, eq):
    a = O("AccumulationDistributionLine", df)["adl"]
    f = O("ChaikinMoneyFlow", df, period=p)["cmf"]
    if np.isnan(a.v).any():
        return
    v = rsum(df["volume"].to_numpy(), p)
    x = (f * v)
    y = a - a.shift(p)
    m = np.isfinite(x.v) & np.isfinite(y.v)
    eq(x, y, 2.0, m)


@ident("price oscillator of simple averages", lambda r: {"l": int(r.integers(2, 40)), "s": 1})
def _(df, l, s, eq):
    s = 1 + l // 3 if 1 + l // 3 < l else 1
    a, b = O("MovingAverage", df, period=s)["ma-simple"], O("MovingAverage", df, period=l)["ma-simple"]
    eq(O("PriceOscillator", df, long_ma=l, short_ma=s)["posc"], 100.0 * (a - b) / b)


@ident("volume oscillator of volume averages", lambda r: {"l": int(r.integers(2, 40))})
def _(df, l, eq):
    s = 1 + l // 4 if 1 + l // 4 < l else 1
    f = pd.DataFrame({"close": df["volume"]})
    eq(O("VolumeOscillator", df, long_period=l, short_period=s)["vosc"],
       O("MovingAverage", f, period=s)["ma-simple"] - O("MovingAverage", f, period=l)["ma-simple"])


@ident("MACD of exponential averages", lambda r: {})
def _(df, eq):
    m = O("MovingAverageConvergenceDivergence", df)
    eq(m["macd"], O("MovingAverage", df, period=12, ma_type="exponential")["ma-exponential"]
       - O("MovingAverage", df, period=26, ma_type="exponential")["ma-exponential"])
    eq(m["signal_line"], ema(m["macd"], 9, minp=9), 1e-4)


@ident("double and triple exponential averages", _per(1, 25))
def _(df, p, eq):
    def e(x):
        f, k = as_close(x, df)
        if len(f) < p:
            return V(np.full(len(df), np.nan))
        y = pad(O("MovingAverage", f, period=p, ma_type="exponential")["ma-exponential"], k)
        return V(y.v, np.where(np.isnan(y.v), 0, y.e + 1e-4))  # the averaged series was rounded already
    e1 = O("MovingAverage", df, period=p, ma_type="exponential")["ma-exponential"]
    e2 = e(e1)
    e3 = e(e2)
    eq(O("DoubleExponentialMovingAverage", df, period=p)["dema"], 2.0 * e1 - e2)
    eq(O("TripleExponentialMovingAverage", df, period=p)["tema"], 3.0 * e1 - 3.0 * e2 + e3)


@ident("%K and Williams %R mirror each other", _per())
def _(df, p, eq):
    k = O("StochasticOscillator", df, k_periods=p)["%K"]
    eq(k, 100.0 + O("WilliamsR", df, period=p)["wr"], 0.5e-4)
    s = O("StochasticMomentumIndex", df, period=p, smoothing_period=1, double_smoothing_period=1)["smi"]
    eq(s, 2.0 * k - 100.0)


@ident("%D averages %K", lambda r: dict(_per(1, 20)(r), d=int(r.integers(1, 8)), s=int(r.choice([1, 3]))))
def _(df, p, d, s, eq):
    for m in ("simple", "exponential"):
        q = O("StochasticOscillator", df, k_periods=p, k_slowing_periods=s, d_periods=d, d_method=m)
        k = V(q["%K"].v, q["%K"].e + 1e-10)
        eq(q["%D"], rmean(k, d) if m == "simple" else ema(k, d, minp=d), 1e-4)


@ident("intraday momentum with yesterday's close as open is Chande's momentum", _per(1, 25))
def _(df, p, eq):
    f = df.copy()
    f["open"] = df["close"].shift(1)
    f = f.iloc[1:]
    if len(f) < p:
        return
    i = pad(O("IntradayMomentumIndex", f, period=p)["imi"], 1)
    eq(i, 0.5 * (O("ChandeMomentumOscillator", df, period=p)["cmo"] + 100.0))


@ident("momentum is rate of change plus 100", _per())
def _(df, p, eq):
    prc = O("PriceRateOfChange", df, period=p)["prc"]
    eq(O("Momentum", df, period=p)["mom"], prc + 100.0)
    perf = O("Performance", df)["prf"]
    if len(df) > p:
        eq(V(perf.v[p:p + 1], perf.e[p:p + 1]), V(prc.v[p:p + 1], prc.e[p:p + 1]) / 100.0)


@ident("volume rate of change is the rate of change of volume", _per(1, 25))
def _(df, p, eq):
    f = pd.DataFrame({"close": df["volume"]})
    eq(O("VolumeRateOfChange", df, period=p)["vrc"], O("PriceRateOfChange", f, period=p)["prc"])


@ident("Qstick averages bodies", _per())
def _(df, p, eq):
    f = pd.DataFrame({"close": df["close"] - df["open"]})
    eq(O("Qstick", df, period=p)["qstick"], O("MovingAverage", f, period=p)["ma-simple"])


@ident("price and volume trend accumulates volume times rate of change", lambda r: {})
def _(df, eq):
    t, c = O("PriceAndVolumeTrend", df)["pvt"], O("PriceRateOfChange", df, period=1)["prc"]
    eq(tail(t - t.shift(1), 1), tail(c * V(df["volume"].to_numpy()) / 100.0, 1), 1e-4)


@ident("volume indexes follow the rate of change on rising / falling volume", lambda r: {})
def _(df, eq):
    v, c = df["volume"].to_numpy(), O("PriceRateOfChange", df, period=1)["prc"]
    up, dn = np.concatenate([[False], v[1:] > v[:-1]]), np.concatenate([[False], v[1:] < v[:-1]])
    for n, k, m in (("PositiveVolumeIndex", "pvi", up), ("NegativeVolumeIndex", "nvi", dn)):
        x = O(n, df)[k]
        r = V(np.where(m, c.v, 0.0), np.where(m, c.e, 0.0))
        eq(tail(x, 1), tail(x.shift(1) * (1.0 + r / 100.0), 1), 1e-4)


@ident("typical, weighted and median price", lambda r: {})
def _(df, eq):
    t, w, m, c = O("TypicalPrice", df)["tp"], O("WeightedClose", df)["wc"], O("MedianPrice", df)["mp"], \
        V(df["close"].to_numpy())
    eq(w, (3.0 * t + c) / 4.0)
    eq(m, (3.0 * t - c) / 2.0)


@ident("average true range is Wilder's smoothing of the true range", lambda r: {})
def _(df, eq):
    h, lo, pc = df["high"].to_numpy(), df["low"].to_numpy(), df["close"].shift(1).to_numpy()
    tr = np.fmax(np.fmax(h - lo, h - pc), pc - lo)
    f = pd.DataFrame({"close": tr}, index=df.index)
    eq(O("AverageTrueRange", df)["atr"], O("WildersSmoothing", f, period=14)["ws"])


@ident("relative momentum with one row of momentum is relative strength", _per(2, 25))
def _(df, p, eq):
    f = df.copy()
    f[PRICES] = (f[PRICES] * 4096.0).round()
    a, b = O("RelativeMomentumIndex", f, period=p, momentum_period=1)["rmi"], O("RelativeStrengthIndex", f, period=p)["rsi"]
    ch = np.abs(np.diff(f["close"].to_numpy(), prepend=np.nan))
    w = pd.Series(ch).rolling(p, 1).max().to_numpy()
    eq(a, b, 0.01 + 100.0 * p * 2e-4, np.isfinite(a.v) & np.isfinite(b.v) & (w > 10))


@ident("directional index from the directional indicators", lambda r: {})
def _(df, eq):
    d = O("DirectionalMovementIndex", df)
    a, b = d["+di"], d["-di"]
    x = 100.0 * (a - b).abs() / (a + b)
    eq(d["dx"], x, 0.0, np.isfinite(x.v) & (a.v + b.v > 0.01))
    eq(d["adxr"], (d["adx"] + d["adx"].shift(13)) / 2.0)


@ident("channel, %R and Ichimoku lines share the extremes", _per(1, 30))
def _(df, p, eq):
    for q in (p, 9, 26):
        if len(df) < q:
            continue
        pc = O("PriceChannel", df, period=q)
        h, lo = pc["highest_high"].shift(-1), pc["lowest_low"].shift(-1)
        ok = np.isfinite(h.v)
        if q == p:
            w = -100.0 * (h - V(df["close"].to_numpy())) / (h - lo)
            eq(O("WilliamsR", df, period=q)["wr"], w, 0.0, ok & (h.v - lo.v > 0.01))
        if q != p:
            i = O("IchimokuCloud", df)["tenkan_sen" if q == 9 else "kijun_sen"]
            eq(i, (h + lo) / 2.0, 0.0, ok)
    i = O("IchimokuCloud", df)
    eq(i["senkou_a"], ((i["tenkan_sen"] + i["kijun_sen"]) / 2.0).shift(26))


@ident("projection oscillator is the place within the projection bands", _per(2, 25))
def _(df, p, eq):
    b, o = O("ProjectionBands", df, period=p), O("ProjectionOscillator", df, period=p)
    u, lo = b["upper_band"], b["lower_band"]
    x = 100.0 * (V(df["close"].to_numpy()) - lo) / (u - lo)
    eq(o["posc"], x, 0.0, (u.v - lo.v > 0.01) | np.isnan(u.v))
    t = V(o["posc"].v, np.where(np.isfinite(o["posc"].e), o["posc"].e, np.inf))
    eq(o["trigger_line"], ema(t, 3, minp=3), 1e-4)


@ident("projection bands follow the regression slopes of highs and lows", _per(2, 20))
def _(df, p, eq):
    b = O("ProjectionBands", df, period=p)
    for col, key, pick in (("high", "upper_band", np.max), ("low", "lower_band", np.min)):
        y = df[col].to_numpy()
        s = O("LinearRegressionSlope", pd.DataFrame({"close": df[col]}), period=p)["lrs"]
        v = np.full(len(y), np.nan)
        for i in range(p - 1, len(y)):
            v[i] = pick([y[i - j] + j * s.v[i] for j in range(p)])
        eq(b[key], V(v, np.where(np.isnan(v), 0, p * s.e)))


@ident("ease of movement from median price and market facilitation", _per(1, 25))
def _(df, p, eq):
    e = O("EaseOfMovement", df, period=p)
    m, f = O("MedianPrice", df)["mp"], O("MarketFacilitationIndex", df)["mfi"]
    x = (m - m.shift(1)) * f * 10000.0
    eq(e["emv"], x, 1e-4, np.isfinite(x.v) & (df["volume"].to_numpy() > 0))
    a = rmean(V(e["emv"].v, e["emv"].e), p)
    eq(e["emv_ma"], a, 1e-4, np.isfinite(a.v) & np.isfinite(e["emv_ma"].v))


@ident("retracement levels divide the price range", lambda r: {})
def _(df, eq):
    f = O("FibonacciRetracement", df)
    a, b = f["rl_0.0"], f["rl_100.0"]
    n = len(df)
    eq(a, V(np.full(n, df["close"].max())))
    eq(b, V(np.full(n, df["close"].min())))
    for q in (23.6, 38.2, 50.0, 61.8):
        eq(f["rl_%.1f" % q], a - (q / 100.0) * (a - b))


@ident("Chaikin's volatility is the rate of change of the averaged range", lambda r: {"e": int(r.integers(1, 15)),
                                                                                     "c": int(r.integers(1, 15))})
def _(df, e, c, eq):
    f = pd.DataFrame({"close": df["high"] - df["low"]})
    if len(df) < max(e, c):
        return
    m = O("MovingAverage", f, period=e, ma_type="exponential")["ma-exponential"]
    x = 100.0 * (m - m.shift(c)) / m.shift(c)
    eq(O("VolatilityChaikins", df, ema_period=e, change_period=c)["vch"], x, 0.0, np.isnan(x.v) | (m.shift(c).v > 0.01))


@ident("on balance volume moves by the volume of the day", lambda r: {})
def _(df, eq):
    o, c = O("OnBalanceVolume", df)["obv"], O("PriceRateOfChange", df, period=1)["prc"]
    s = np.sign(np.diff(df["close"].to_numpy(), prepend=df["close"].iloc[0]))
    d = V(o.v - np.concatenate([[0.0], o.v[:-1]]), 2 * o.e)
    x = V(s * df["volume"].to_numpy(), 1e-9 * np.abs(df["volume"].to_numpy()))
    eq(tail(d, 1), tail(x, 1), 1e-9 * float(np.abs(o.v).max()) + 1e-4)
    mag = V(np.abs(d.v), d.e)
    eq(tail(mag, 1), tail(V(np.where(c.v != 0, df["volume"].to_numpy(), 0)), 1), 1e-9 * float(np.abs(o.v).max()) + 1e-4,
       np.abs(c.v[1:]) > 1e-3)


@ident("mirrored prices mirror the oscillators", _per(1, 20))
def _(df, p, eq):
    # mirrored prices mirror the bounded oscillators
    f = df.copy()
    top = float(df["high"].max() + df["low"].min())
    f["open"], f["close"] = top - df["open"], top - df["close"]
    f["high"], f["low"] = top - df["low"], top - df["high"]
    if f["low"].min() <= 0:
        return
    dy = df[PRICES].to_numpy() * 8
    if (dy != np.round(dy)).any():
        return
    for n, c, t in (("RelativeMomentumIndex", "rmi", 100.0), ("IntradayMomentumIndex", "imi", 100.0),
                    ("ChandeMomentumOscillator", "cmo", 0.0), ("WilliamsR", "wr", -100.0), ("StochasticOscillator", "%K", 100.0),
                    ("CommodityChannelIndex", "cci", 0.0), ("StochasticMomentumIndex", "smi", 0.0), ("Qstick", "qstick", 0.0),
                    ("LinearRegressionSlope", "lrs", 0.0), ("RelativeVolatilityIndex", "rvi", 100.0),
                    ("UltimateOscillator", "uosc", 100.0)):
        S = sp.SPECS[n]
        q = {"k_periods": p} if n == "StochasticOscillator" else {} if n == "UltimateOscillator" else {"period": max(p, 2)}
        if len(df) < S.need(q):
            continue
        a, b = O(n, df, **q)[c], O(n, f, **q)[c]
        eq(a + b, V(np.where(np.isnan(a.v), np.nan, t)), 1e-4)
    a, b = O("StandardDeviation", df, period=p)["sd"], O("StandardDeviation", f, period=p)["sd"]
    eq(a, b)
    for m in ("simple", "exponential", "triangular"):
        a, b = (O("MovingAverage", x, period=p, ma_type=m)["ma-" + m] for x in (df, f))
        eq(a + b, V(np.where(np.isnan(a.v), np.nan, top)))
    d, g = O("DirectionalMovementIndex", df) if len(df) >= 28 else None, O("DirectionalMovementIndex", f) if len(df) >= 28 else None
    if d:
        eq(d["+di"], g["-di"])
        eq(d["-di"], g["+di"])
        eq(d["adx"], g["adx"], 1e-4)
    if len(df) >= 14:
        eq(O("AverageTrueRange", df)["atr"], O("AverageTrueRange", f)["atr"])


NV4 = {"quick": 130, "thorough": 1200}


def v04_cases(rng, tier):
    out = []
    for k in IDS:
        for j in range(NV4[tier] // (2 if k.startswith("mirrored") else 1)):
            n = int(rng.integers(60, 200)) if j % 12 else int(rng.integers(200, 500))
            d = gen.sample(rng, int(rng.integers(1100, 4300)) if j == 5 else n,
                           regime=str(rng.choice(LIVELY)) if j % 2 else None)
            args = IDS[k][1](rng)
            if j % 16 == 7:  # windows far beyond the usual ones
                for a in args:
                    if a in ("p", "l") and type(args[a]) is int:
                        args[a] = int(rng.integers(40, 420))
                        d["n"] = max(d["n"], 2 * args[a] + int(rng.integers(60, 160)))
            if k.startswith("mirrored"):
                d["grid"] = str(rng.choice(["dyadic", "int"]))
                if d["regime"] == "penny":
                    d["regime"] = "walk"
            out.append({"relation": k, "args": args, "data": d})
    return out


def v04(case, mon):
    f, _d = IDS[case["relation"]]
    df = gen.make(case["data"])

    def eq(a, b, extra=0.0, mask=None):
        a, b = V.of(a), V.of(b)
        e = np.where(np.isnan(b.v) & np.isnan(a.v), 0, b.e)
        agree(mon, "indicators defined through one another disagree", V(a.v, a.e), V(b.v, e), extra=extra, mask=mask,
              relation=case["relation"], args=case["args"], kind="values_compared")
    mon.ev("relation:" + case["relation"])
    with np.errstate(all="ignore"):
        f(df, eq=eq, **case["args"])
    mon.state(case["relation"], case["args"], case["data"]["regime"], case["data"]["vol"], len(df) // 32)


# ------------------------------------------------------------------ V05
def lookback(name, p):
    """{column: number of rows (today included) the value is defined by}."""
    q = sp.SPECS[name].full(p)
    n = q.get("period")
    one = {"TypicalPrice": 1, "WeightedClose": 1, "MedianPrice": 1, "MarketFacilitationIndex": 1, "SwingIndex": 2,
           "WilliamsAccumulationDistribution": 2, "UltimateOscillator": 29}
    if name in one:
        return dict.fromkeys(sp.SPECS[name].out(p), one[name])
    if name == "MovingAverage":
        k = {"simple": n, "time_series": n, "triangular": 2 * n - 1}.get(q["ma_type"])
        return {"ma-" + q["ma_type"]: k} if k else None
    plain = ("BollingerBands", "Envelopes", "StandardDeviation", "LinearRegressionSlope", "LinearRegressionIndicator",
             "TimeSeriesForecast", "ProjectionBands", "IntradayMomentumIndex", "WilliamsR", "CommodityChannelIndex", "Qstick",
             "ChaikinMoneyFlow")
    if name in plain:
        return dict.fromkeys(sp.SPECS[name].out(p), n)
    if name in ("ForecastOscillator", "PriceChannel", "ChandeMomentumOscillator", "Momentum", "PriceRateOfChange",
                "VerticalHorizontalFilter", "VolumeRateOfChange"):
        return dict.fromkeys(sp.SPECS[name].out(p), n + 1)
    if name == "PriceOscillator":
        return {"posc": q["long_ma"]}
    if name == "VolumeOscillator":
        return {"vosc": q["long_period"]}
    if name == "DetrendedPriceOscillator":
        return {"dpo": max(1, n - 1 - n // 2)}
    if name == "ProjectionOscillator":
        return {"posc": n}
    if name == "EaseOfMovement":
        return {"emv": 2, "emv_ma": n + 1}
    if name == "StochasticOscillator":
        k = q["k_periods"] + q["k_slowing_periods"] - 1
        out = {"%K": k}
        if q["d_method"] == "simple":
            out["%D"] = k + q["d_periods"] - 1
        return out
    if name == "IchimokuCloud":
        return {"tenkan_sen": 9, "kijun_sen": 26, "senkou_a": 52, "senkou_b": 78}
    return None


WINDOWED = tuple(n for n in sp.NAMES if lookback(n, {}))
NV5 = {"quick": 260, "thorough": 2200}


def v05_cases(rng, tier):
    out = []
    for name in WINDOWED:
        S = sp.SPECS[name]
        for k in range(NV5[tier]):
            p = S.sample(rng, far=0.04)
            if not lookback(name, p):
                p = {}
            look = max(lookback(name, p).values())
            m = max(look, S.need(p)) + int(rng.integers(2, 60))
            out.append({"ind": name, "params": p, "past": gen.sample(rng, int(rng.integers(*((1, 120) if k % 130 != 5 else (900, 2500))))),
                        "rows": gen.sample(rng, m), "mode": ["cut", "other", "scaled", "still", "huge", "longer"][k % 6]})
    return out


def v05(case, mon):
    name, p = case["ind"], case["params"]
    now = gen.make(case["rows"])
    past = gen.make(case["past"])
    level = float(now["close"].mean() / past["close"].mean())
    past[PRICES] = past[PRICES] * level
    m = len(now)

    def join(before):
        g = pd.concat([before, now]) if before is not None else now.copy()
        k = len(g) - m
        g.index = pd.date_range(pd.Timestamp("2015-01-05") - pd.Timedelta(days=k), periods=len(g), freq="D")
        return g
    mode = case["mode"]
    a = join(past)
    if mode == "cut":
        b = join(None)
    elif mode == "other":
        b = join(past.iloc[::-1])
    elif mode == "scaled":
        q = past.copy()
        q[PRICES] *= 3.0
        q["volume"] *= 0.25
        b = join(q)
    elif mode == "still":
        q = past.copy()
        q[PRICES] = float(now["close"].iloc[0])
        q["volume"] = 0.0
        b = join(q)
    elif mode == "huge":
        q = past.copy()
        q[PRICES] *= 50.0
        q["volume"] *= 1000.0
        b = join(q)
    else:
        b = join(pd.concat([past.iloc[::-1], past]))
    oa, ob = observe(name, a, p), observe(name, b, p)
    ks = lookback(name, p)
    for c, look in ks.items():
        x, y = oa[c], ob[c]
        off = m - (len(a) - len(x.v))  # rows of the common part present in the result
        x, y = tail(x, len(x.v) - off), tail(y, len(y.v) - off)
        x, y = tail(x, look - 1), tail(y, look - 1)
        agree(mon, "a value depends on rows before its window", x, y, indicator=name, params=p, column=c, past=mode,
              window=look)
    mon.ev("twins")
    mon.state(name, p, mode, case["rows"]["regime"])


VAL = ["unique timestamps", "valid OHLC bars", "int64/float64 columns"]
CHECKS = {
    "V01": Check("V01", v01_cases, v01,
                 "A case calculates one history, and twins cut at or altered after one or two rows; every value up to the cut "
                 "is compared. Distinct: (indicator, parameters, kind of future, cut relative to the minimum, regime).",
                 need=("values_compared", "twins"), assumptions=VAL + ["DPO and Fibonacci use later prices by definition"]),
    "V02": Check("V02", v02_cases, v02,
                 "A case calculates a history in two units of price and volume (powers of two) and compares every value by "
                 "its degree of homogeneity. Distinct: (indicator, parameters, factors, regime).",
                 need=("values_compared", "twins", "signals_compared"),
                 assumptions=VAL + ["Range Indicator mixes ratios and differences by definition and is left out"]),
    "V03": Check("V03", v03_cases, v03,
                 "A case calculates one history and evaluates range, order and containment invariants on every row. Distinct: "
                 "(indicator, parameters, regime, shock, length/16).",
                 need=("range_rows", "average_rows", "order_rows"), assumptions=VAL),
    "V04": Check("V04", v04_cases, v04,
                 "A case evaluates one relation between indicators on one history. Distinct: (relation, arguments, regimes, "
                 "length/32).", need=("values_compared",) + tuple("relation:" + k for k in IDS), assumptions=VAL),
    "V05": Check("V05", v05_cases, v05,
                 "A case joins the same rows to two different pasts and compares every value whose window lies in the common "
                 "rows. Distinct: (indicator, parameters, kind of past, regime).",
                 need=("values_compared", "twins"), assumptions=VAL),
}
