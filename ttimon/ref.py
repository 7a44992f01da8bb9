"""Independent reference definitions of every indicator.

Each entry maps (data arrays, params) -> {column: V} (value and rounding-error bound).
Written from the published formula of each indicator, window by window, without
pandas; nothing here is imported from the library.
"""
import numpy as np

from .ev import (V, U, K, ema, rmax, rmax1, rmean, rmin, rmin1, rstd, rsum, vmax, vmax_skip,
                 vmin, where)

REF = {}


def ref(name):
    def deco(f):
        REF[name] = f
        return f
    return deco


def nan(n):
    return np.full(n, np.nan)


# ------------------------------------------------------------------ price aggregates
@ref("TypicalPrice")
def _(d, period=200):
    return {"tp": (V(d["high"]) + V(d["low"]) + V(d["close"])) / 3.0}


@ref("WeightedClose")
def _(d):
    return {"wc": (2.0 * V(d["close"]) + V(d["high"]) + V(d["low"])) / 4.0}


@ref("MedianPrice")
def _(d, period=20):
    return {"mp": 0.5 * (V(d["high"]) + V(d["low"]))}


@ref("Performance")
def _(d, mode="LONG", target=0.05):
    c = V(d["close"])
    base = np.full(len(c), d["close"][0])
    return {"prf": (c - base) / base, "target_" + mode: V(np.full(len(c), float(target)))}


# ------------------------------------------------------------------ moving averages
@ref("MovingAverage")
def _(d, period=20, ma_type="simple"):
    c = V(d["close"])
    n = len(c)
    if ma_type == "simple":
        r = rmean(c, period)
    elif ma_type == "exponential":
        r = ema(c, period, minp=period)
    elif ma_type == "triangular":
        r = rmean(rmean(c, period), period)
    elif ma_type == "time_series":
        r = _tsf(d["close"], period)
    else:
        cmo = _cmo(d["close"], 9).round(4)
        v, e = nan(n), np.zeros(n)
        k = 2.0 / (period + 1.0)
        v[21] = d["close"][21]
        for i in range(22, n):
            # no defined volatility ratio (no price movement): the average stays put
            if np.isnan(cmo.v[i]):
                ratio, er = 0.0, cmo.e[i]
            else:
                ratio, er = abs(cmo.v[i]) / 100.0, cmo.e[i] / 100.0
            w = k * ratio
            v[i] = w * d["close"][i] + (1.0 - w) * v[i - 1]
            e[i] = abs(1.0 - w) * e[i - 1] + min(k * er, 1.0) * (
                abs(d["close"][i] - v[i - 1]) + e[i - 1]) + K * U * max(abs(v[i]), abs(d["close"][i]))
        r = V(v, e)
    return {"ma-" + ma_type: r}


@ref("DoubleExponentialMovingAverage")
def _(d, period=5):
    e1 = ema(d["close"], period, minp=period)
    e2 = ema(e1, period, minp=period)
    return {"dema": 2.0 * e1 - e2}


@ref("TripleExponentialMovingAverage")
def _(d, period=5):
    e1 = ema(d["close"], period, minp=period)
    e2 = ema(e1, period, minp=period)
    e3 = ema(e2, period, minp=period)
    return {"tema": 3.0 * e1 - 3.0 * e2 + e3}


def wilder(x, p, first, start):
    """Seed with the mean of x[start:start+p] at row start+p-1, then y += (x - y) / p."""
    x = V.of(x)
    n = len(x)
    v, e = nan(n), np.zeros(n)
    i0 = start + p - 1
    v[i0] = np.sum(x.v[start:start + p]) / p
    e[i0] = np.sum(x.e[start:start + p]) / p + K * U * np.abs(x.v[start:start + p]).max()
    if (x.v[start:start + p] == 0).all() and not x.e[start:start + p].any():
        e[i0] = 0.0
    for i in range(i0 + 1, n):
        v[i] = v[i - 1] + (x.v[i] - v[i - 1]) / p
        e[i] = e[i - 1] * (1 - 1.0 / p) + x.e[i] / p + 4 * U * max(abs(v[i - 1]), abs(x.v[i]))
        if v[i] == 0 and v[i - 1] == 0 and e[i - 1] == 0 and x.e[i] == 0 and x.v[i] == 0:
            e[i] = 0.0
    return V(v, e)


@ref("WildersSmoothing")
def _(d, period=5):
    return {"ws": wilder(d["close"], period, None, 0)}


@ref("MovingAverageConvergenceDivergence")
def _(d):
    m = ema(d["close"], 12, minp=12).round(4) - ema(d["close"], 26, minp=26).round(4)
    return {"macd": m, "signal_line": ema(m, 9, minp=9)}


@ref("PriceOscillator")
def _(d, long_ma=30, short_ma=10):
    lo, sh = rmean(d["close"], long_ma), rmean(d["close"], short_ma)
    return {"posc": 100.0 * (sh - lo) / lo}


@ref("DetrendedPriceOscillator")
def _(d, period=6):
    k = 1 + period // 2
    sma = rmean(d["close"], period)
    x = V(d["close"]) - sma.shift(-k)
    m = max(len(x) - k, 0)
    return {"dpo": V(x.v[:m], x.e[:m])}


# ------------------------------------------------------------------ bands / channels / levels
@ref("BollingerBands")
def _(d, period=20, std_number=2):
    mid = rmean(d["close"], period).round(4)
    sd = rstd(d["close"], period) * float(std_number)
    return {"middle_band": mid, "upper_band": mid + sd, "lower_band": mid - sd}


@ref("Envelopes")
def _(d, period=20, shift=0.10):
    m = rmean(d["close"], period)
    return {"upper_band": (1.0 + shift) * m, "lower_band": (1.0 - shift) * m}


@ref("StandardDeviation")
def _(d, period=20):
    return {"sd": rstd(d["close"], period)}


@ref("PriceChannel")
def _(d, period=5):
    return {"highest_high": rmax(d["high"], period).shift(1),
            "lowest_low": rmin(d["low"], period).shift(1)}


@ref("IchimokuCloud")
def _(d):
    def mid(p):
        return (rmax1(d["high"], p) + rmin1(d["low"], p)) / 2.0
    t, k = mid(9), mid(26)
    return {"tenkan_sen": t, "kijun_sen": k, "senkou_a": ((t + k) / 2.0).shift(26),
            "senkou_b": mid(52).shift(26)}


@ref("FibonacciRetracement")
def _(d):
    hi, lo, n = d["close"].max(), d["close"].min(), len(d["close"])
    return {"rl_%.1f" % (100 * q): V(np.full(n, hi - q * (hi - lo)), K * U * abs(hi))
            for q in (0.0, 0.236, 0.382, 0.5, 0.618, 1.0)}


# ------------------------------------------------------------------ regression family
def _ols(y, p):
    """Least-squares line through the last p rows: (slope per row, fitted value at the last row)."""
    y = np.asarray(y, float)
    n = len(y)
    s, f = nan(n), nan(n)
    if n >= p:
        t = np.arange(p) - (p - 1) / 2.0
        w = np.lib.stride_tricks.sliding_window_view(y, p)
        mean = w.mean(axis=1)
        den = (t ** 2).sum()
        sl = ((w - mean[:, None]) * t).sum(axis=1) / den if den else np.full(len(w), np.nan)
        s[p - 1:], f[p - 1:] = sl, mean + sl * t[-1]
    ymax = np.nanmax(np.abs(y)) if n else 0.0
    # normal equations on the raw row numbers lose about (n / p)^2 digits
    cond = (1.0 + n / max(p - 1.0, 1.0)) ** 2 * 12
    es = 64 * U * ymax * cond
    ef = 64 * U * ymax * cond * (n + 1.0)
    if p == 1:
        es = np.inf
    return (V(s, np.where(np.isnan(s) & (p > 1), 0, es)), V(f, np.where(np.isnan(f) & (p > 1), 0, ef)))


@ref("LinearRegressionSlope")
def _(d, period=14):
    return {"lrs": _ols(d["close"], period)[0]}


@ref("LinearRegressionIndicator")
def _(d, period=14):
    return {"lri": _ols(d["close"], period)[1]}


def _tsf(c, p):
    s, f = _ols(c, p)
    return s.round(4) + f.round(4)


@ref("TimeSeriesForecast")
def _(d, period=14):
    return {"tsf": _tsf(d["close"], period)}


@ref("ForecastOscillator")
def _(d, period=14):
    c = V(d["close"])
    return {"fosc": 100.0 * (c - _tsf(d["close"], period).round(4).shift(1)) / c}


def _pbands(d, p):
    n = len(d["close"])
    out = []
    for col, pick in (("high", max), ("low", min)):
        y = d[col]
        s, _f = _ols(y, p)
        v, e = nan(n), np.zeros(n)
        for i in range(p - 1, n):
            v[i] = pick(y[i - j] + j * s.v[i] for j in range(p))
            e[i] = p * s.e[i] + K * U * np.abs(y[i - p + 1:i + 1]).max() * p
        out.append(V(v, e))
    return out


@ref("ProjectionBands")
def _(d, period=14):
    u, lo = _pbands(d, period)
    return {"upper_band": u, "lower_band": lo}


@ref("ProjectionOscillator")
def _(d, period=14):
    u, lo = _pbands(d, period)
    u, lo = u.round(4), lo.round(4)
    x = 100.0 * (V(d["close"]) - lo) / (u - lo)
    return {"posc": x, "trigger_line": ema(x, 3, minp=3)}


# ------------------------------------------------------------------ momentum / oscillators
def _cmo(c, p):
    ch = V(c) - V(c).shift(1)
    up = V(np.where(np.isnan(ch.v), np.nan, np.maximum(ch.v, 0)), ch.e)
    dn = V(np.where(np.isnan(ch.v), np.nan, np.maximum(-ch.v, 0)), ch.e)
    up, dn = V(up.v, np.where(up.v == 0, 0, up.e)), V(dn.v, np.where(dn.v == 0, 0, dn.e))
    u, w = rsum(up, p), rsum(dn, p)
    return 100.0 * (u - w) / (u + w)


@ref("ChandeMomentumOscillator")
def _(d, period=5):
    return {"cmo": _cmo(d["close"], period)}


@ref("RelativeStrengthIndex")
def _(d, period=14):
    c, n, p = d["close"], len(d["close"]), period
    ch = (V(c) - V(c).shift(1))
    out = []
    for sgn in (1.0, -1.0):
        m = sgn * ch
        x = V(np.where(np.isnan(m.v), np.nan, np.maximum(m.v, 0.0)), np.where(m.v > 0, m.e, 0)).round(4)
        v, e = nan(n), np.zeros(n)
        v[p] = np.sum(x.v[1:p + 1]) / p
        e[p] = np.sum(x.e[1:p + 1]) / p + (K * U * np.abs(x.v[1:p + 1]).max())
        if v[p] == 0:
            e[p] = np.sum(x.e[1:p + 1]) / p
        for i in range(p + 1, n):
            y = V([v[i - 1] + (x.v[i] - v[i - 1]) / p])
            exact0 = v[i - 1] == 0 and e[i - 1] == 0 and x.v[i] == 0 and x.e[i] == 0
            y.e[0] = 0.0 if exact0 else (e[i - 1] * (1 - 1.0 / p) + x.e[i] / p
                                         + K * U * max(abs(v[i - 1]), abs(x.v[i])))
            y = y.round(4)
            v[i], e[i] = y.v[0], (0.0 if exact0 else y.e[0])
        out.append(V(v, e))
    u, w = out
    # 100 - 100 / (u / w + 1): 100 when there is no downward change, undefined when no change
    r = 100.0 * u / (u + w)
    ze = (u.v == 0) & (w.v == 0)
    return {"rsi": V(np.where(ze, np.nan, r.v), r.e)}


@ref("RelativeMomentumIndex")
def _(d, period=8, momentum_period=4):
    c = V(d["close"])
    ch = c - c.shift(momentum_period)
    up = V(np.where(np.isnan(ch.v), np.nan, np.maximum(ch.v, 0)), np.where(ch.v > 0, ch.e, 0))
    dn = V(np.where(np.isnan(ch.v), np.nan, np.maximum(-ch.v, 0)), np.where(ch.v < 0, ch.e, 0))
    u = wilder(up, period, None, momentum_period)
    w = wilder(dn, period, None, momentum_period)
    return {"rmi": 100.0 * u / (u + w)}


@ref("IntradayMomentumIndex")
def _(d, period=14):
    df = V(d["close"]) - V(d["open"])
    up = V(np.maximum(df.v, 0), np.where(df.v > 0, df.e, 0))
    dn = V(np.maximum(-df.v, 0), np.where(df.v < 0, df.e, 0))
    u, w = rsum(up, period), rsum(dn, period)
    return {"imi": 100.0 * u / (u + w)}


@ref("Momentum")
def _(d, period=12):
    c = V(d["close"])
    return {"mom": 100.0 * c / c.shift(period)}


@ref("PriceRateOfChange")
def _(d, period=25):
    c = V(d["close"])
    return {"prc": 100.0 * (c - c.shift(period)) / c.shift(period)}


@ref("StochasticOscillator")
def _(d, k_periods=14, k_slowing_periods=1, d_periods=3, d_method="simple"):
    ll, hh = rmin(d["low"], k_periods), rmax(d["high"], k_periods)
    num, den = V(d["close"]) - ll, hh - ll
    k = (100.0 * rsum(num, k_slowing_periods) / rsum(den, k_slowing_periods)).round(4)
    dd = rmean(k, d_periods) if d_method == "simple" else ema(k, d_periods, minp=d_periods)
    return {"%K": k, "%D": dd}


@ref("StochasticMomentumIndex")
def _(d, period=5, smoothing_period=3, double_smoothing_period=3):
    hh, ll = rmax(d["high"], period), rmin(d["low"], period)
    dist, rng = V(d["close"]) - (hh + ll) / 2.0, hh - ll
    s, q = smoothing_period, double_smoothing_period
    a = ema(ema(dist, s, minp=s), q, minp=q)
    b = ema(ema(rng, s, minp=s), q, minp=q)
    return {"smi": 100.0 * a / (0.5 * b)}


@ref("WilliamsR")
def _(d, period=5):
    hh, ll = rmax(d["high"], period), rmin(d["low"], period)
    return {"wr": -100.0 * ((hh - d["close"]) / (hh - ll))}


@ref("UltimateOscillator")
def _(d):
    pc = V(d["close"]).shift(1)
    th, tl = vmax(V(d["high"]), pc), vmin(V(d["low"]), pc)
    bu, tr = V(d["close"]) - tl, th - tl
    q = [rsum(bu, p) / rsum(tr, p) for p in (7, 14, 28)]
    return {"uosc": 100.0 * (4.0 * q[0] + 2.0 * q[1] + q[2]) / 7.0}


@ref("CommodityChannelIndex")
def _(d, period=5):
    tp = (V(d["high"]) + V(d["low"]) + V(d["close"])) / 3.0
    n = len(tp)
    same3 = np.array([len(set(tp.v[max(0, i - period + 1):i + 1])) == 1 for i in range(n)])
    m = rmean(tp, period)
    md, e = nan(n), np.zeros(n)
    for i in range(period - 1, n):
        w = tp.v[i - period + 1:i + 1]
        md[i] = np.abs(m.v[i] - w).mean()
        e[i] = m.e[i] + tp.e[i - period + 1:i + 1].max() + K * U * abs(m.v[i])
    # flat window: deviation and numerator are exactly zero only if all rows are identical rows
    rows = np.stack([d["high"], d["low"], d["close"]])
    flat = np.array([(rows[:, max(0, i - period + 1):i + 1] == rows[:, i:i + 1]).all() for i in range(n)])
    num = tp - m
    num = V(np.where(flat & ~np.isnan(num.v), 0.0, num.v), np.where(flat, 0.0, num.e))
    md = V(np.where(flat & ~np.isnan(md), 0.0, md), np.where(flat, 0.0, e))
    return {"cci": num / (0.015 * md)}


@ref("VerticalHorizontalFilter")
def _(d, period=5):
    c = V(d["close"])
    return {"vhf": (rmax(c, period) - rmin(c, period)) / rsum((c - c.shift(1)).abs(), period)}


@ref("Qstick")
def _(d, period=8):
    return {"qstick": rsum(V(d["close"]) - V(d["open"]), period) / float(period)}


@ref("RangeIndicator")
def _(d, range_period=5, smoothing_period=3):
    c = V(d["close"])
    pc = c.shift(1)
    tr = vmax(V(d["high"]) - V(d["low"]), V(d["high"]) - pc, pc - V(d["low"]))
    ch = c - pc
    rising = d["close"] > pc.v
    st = where(rising, tr / where(rising, ch, np.ones(len(c))), tr)
    lo, hi = rmin(st, range_period), rmax(st, range_period)
    rg = hi - lo
    same = np.zeros(len(c), bool)
    for i in range(range_period - 1, len(c)):
        same[i] = len(set(st.v[i - range_period + 1:i + 1])) == 1 and i >= range_period
    with np.errstate(all="ignore"):
        pos = rg.v > 0
        x = where(pos, 100.0 * (st - lo) / where(pos, rg, np.ones(len(c))), 100.0 * (st - lo))
        err = np.where(np.isnan(rg.v), 0.0, np.minimum(np.where(np.isnan(x.e), 100.0, x.e), 100.0))
    sure_flat = (rg.v == 0) & (rmax(V(st.e), range_period).v == 0)
    err = np.where(sure_flat, 0.0, np.where((rg.v <= 2 * rg.e) & ~np.isnan(rg.v), 100.0, err))
    return {"ri": ema(V(x.v, err), smoothing_period, minp=smoothing_period)}


@ref("SwingIndex")
def _(d):
    o, h, lo, c = (V(d[k]) for k in ("open", "high", "low", "close"))
    pc, po = c.shift(1), o.shift(1)
    a, b, hl = (h - pc).abs(), (lo - pc).abs(), h - lo
    k = vmax(a, b)
    r = vmax(a, b, hl) + 0.25 * (pc - po).abs()
    x = 50.0 * (((c - pc) + 0.5 * (c - o) + 0.25 * (pc - po)) / r) * (k / 3.0)
    return {"swi": x.clip(-100.0, 100.0)}


# ------------------------------------------------------------------ volume family
def _clv(d):
    h, lo, c = V(d["high"]), V(d["low"]), V(d["close"])
    return V(d["volume"]) * ((c - lo) - (h - c)) / (h - lo)


def _cumskip(x):
    v, e, s, es = nan(len(x)), np.zeros(len(x)), 0.0, 0.0
    big = 0.0
    for i in range(len(x)):
        if not np.isnan(x.v[i]):
            s += x.v[i]
            big = max(big, abs(s), abs(x.v[i]))
            es += x.e[i] + 4 * U * big
            v[i], e[i] = s, es
    return V(v, e)


def _adl(d):
    """Running total of the money flow volume, in whole numbers (fraction dropped)."""
    a = _cumskip(_clv(d))
    with np.errstate(all="ignore"):
        near = np.abs(a.v - np.round(a.v)) <= a.e
    return V(np.trunc(a.v), np.where(near, 1.0, 0.0))


@ref("AccumulationDistributionLine")
def _(d):
    return {"adl": _adl(d)}


@ref("ChaikinOscillator")
def _(d):
    a = _adl(d)
    return {"co": ema(a, 3, minp=3) - ema(a, 10, minp=10)}


@ref("ChaikinMoneyFlow")
def _(d, period=5):
    return {"cmf": rsum(_clv(d), period) / rsum(d["volume"], period)}


@ref("EaseOfMovement")
def _(d, period=40):
    h, lo = V(d["high"]), V(d["low"])
    mid = 0.5 * ((h + lo) - (h.shift(1) + lo.shift(1)))
    box = V(d["volume"]) / ((h - lo) * 10000.0)
    x = mid / box
    return {"emv": x, "emv_ma": rmean(x, period)}


@ref("KlingerOscillator")
def _(d):
    h, lo, c, vol = d["high"], d["low"], d["close"], V(d["volume"])
    n = len(c)
    tot = V(h) + V(lo) + V(c)
    ch = tot - tot.shift(1)
    bad = np.zeros(n, bool)
    bad[1:] = (np.abs(ch.v[1:]) <= ch.e[1:]) & (ch.e[1:] > 0)
    same = np.concatenate([[False], (h[1:] == h[:-1]) & (lo[1:] == lo[:-1]) & (c[1:] == c[:-1])])
    bad &= ~same
    t = np.where(np.isnan(ch.v), np.nan, np.where(ch.v > 0, 1.0, -1.0))
    t[same] = -1.0
    dm = V(h) - V(lo)
    cm, ce = np.zeros(n), np.zeros(n)
    for i in range(1, n):
        prev, pe = (cm[i - 1], ce[i - 1]) if t[i] == t[i - 1] else (dm.v[i - 1], dm.e[i - 1])
        cm[i], ce[i] = prev + dm.v[i], pe + dm.e[i] + 4 * U * abs(prev + dm.v[i])
    vf = vol * (2.0 * (dm / V(cm, ce)) - 1.0).abs() * V(t) * 100.0
    k = int(np.argmax(bad)) if bad.any() else n
    e = vf.e.copy()
    e[k:] = np.inf
    vf = V(vf.v, e)
    return {"ko": ema(vf, 34, minp=34) - ema(vf, 55, minp=55)}


@ref("MarketFacilitationIndex")
def _(d):
    return {"mfi": (V(d["high"]) - V(d["low"])) / V(d["volume"])}


def _vix(d, up):
    c, v = d["close"], d["volume"]
    x, e = [1000.0], [0.0]
    for i in range(1, len(c)):
        go = v[i] > v[i - 1] if up else v[i] < v[i - 1]
        x.append(x[-1] * c[i] / c[i - 1] if go else x[-1])
        e.append(e[-1] * c[i] / c[i - 1] + K * U * x[-1] if go else e[-1])
    return V(np.array(x), np.array(e))


@ref("NegativeVolumeIndex")
def _(d):
    return {"nvi": _vix(d, False)}


@ref("PositiveVolumeIndex")
def _(d):
    return {"pvi": _vix(d, True)}


@ref("OnBalanceVolume")
def _(d):
    c = d["close"]
    s = np.concatenate([[0.0], np.sign(np.diff(c))]) * d["volume"]
    v = np.cumsum(s)
    return {"obv": V(v, 0 if np.all(d["volume"] == np.round(d["volume"])) else
                     K * U * len(c) * np.abs(d["volume"]).sum())}


@ref("PriceAndVolumeTrend")
def _(d):
    c, vol = V(d["close"]), V(d["volume"])
    x = (c - c.shift(1)) * (vol / c.shift(1))
    x.v[0], x.e[0] = 0.0, 0.0
    return {"pvt": _cumskip(x)}


@ref("VolumeOscillator")
def _(d, long_period=5, short_period=2):
    return {"vosc": rmean(d["volume"], short_period) - rmean(d["volume"], long_period)}


@ref("VolumeRateOfChange")
def _(d, period=5):
    v = V(d["volume"])
    return {"vrc": 100.0 * ((v - v.shift(period)) / v.shift(period))}


# ------------------------------------------------------------------ range / trend / directional
@ref("AverageTrueRange")
def _(d):
    h, lo, pc = V(d["high"]), V(d["low"]), V(d["close"]).shift(1)
    tr = vmax_skip(h - lo, h - pc, pc - lo)
    return {"atr": wilder(tr, 14, None, 0)}


@ref("DirectionalMovementIndex")
def _(d):
    h, lo, c = d["high"], d["low"], d["close"]
    n = len(h)
    H, L, C = V(h), V(lo), V(c)
    tr = vmax(H - L, H - C.shift(1), C.shift(1) - L)
    up, dn = H - H.shift(1), L.shift(1) - L
    amb = (np.abs(up.v - dn.v) <= up.e + dn.e) & (up.v > 0) & (up.e + dn.e > 0)
    amb[0] = False
    pdm = V(np.where((up.v > dn.v) & (up.v > 0), up.v, 0.0), np.where(amb, np.maximum(up.v, dn.v), up.e))
    ndm = V(np.where((dn.v > up.v) & (dn.v > 0), dn.v, 0.0), np.where(amb, np.maximum(up.v, dn.v), dn.e))
    pdm.e = np.where((pdm.v == 0) & ~amb, 0, pdm.e)
    ndm.e = np.where((ndm.v == 0) & ~amb, 0, ndm.e)

    def acc(x):
        v, e = nan(n), np.zeros(n)
        v[13], e[13] = np.sum(x.v[1:14]), np.sum(x.e[1:14])
        for i in range(14, n):
            v[i] = v[i - 1] - v[i - 1] / 14.0 + x.v[i]
            e[i] = e[i - 1] * 13 / 14 + x.e[i] + K * U * abs(v[i])
        return V(v, e)
    t14, p14, n14 = acc(tr), acc(pdm), acc(ndm)
    pdi, ndi = 100.0 * p14 / t14, 100.0 * n14 / t14
    for q in (pdi, ndi):
        q.v[13] = np.nan
        q.e[13] = 0
    dx = 100.0 * ((pdi - ndi).abs() / (pdi + ndi).abs())
    # a row with no directional movement at all contributes nothing to the averages
    fill = V(np.where(np.isnan(dx.v), 0.0, dx.v), dx.e)
    adx, ae = nan(n), np.zeros(n)
    adx[27], ae[27] = np.sum(fill.v[14:28]) / 14.0, np.sum(fill.e[14:28]) / 14.0 + K * U * 100
    for i in range(28, n):
        adx[i] = (13.0 * adx[i - 1] + fill.v[i]) / 14.0
        ae[i] = (13.0 * ae[i - 1] + fill.e[i]) / 14.0 + K * U * 100
    adx = V(adx, ae)
    adxr = (adx + adx.shift(13)) / 2.0
    adxr.v[:40] = np.nan
    adxr.e[:40] = 0
    return {"+di": pdi, "-di": ndi, "dx": dx, "adx": adx, "adxr": adxr}


@ref("ParabolicSAR")
def _(d, step=0.02, cap=0.2):
    h, lo = d["high"], d["low"]
    n = len(h)
    out, err = nan(n), np.zeros(n)
    long_ = h[1] > h[0]
    sar, ep = (lo[0], h[0]) if long_ else (h[0], lo[0])
    af, start, exact = step, 0, True
    out[0] = sar
    for i in range(1, n):
        # extreme price of the running position, including today
        ep_now = max(ep, h[i]) if long_ else min(ep, lo[i])
        nxt = sar + af * (ep - sar)
        bound = lo[max(0, i - 2):i].min() if long_ else h[max(0, i - 2):i].max()
        tol = 1e-9 * max(abs(nxt), 1e-6)
        hit = lo[i] if long_ else h[i]
        if abs(nxt - bound) <= tol:
            cand, exact = bound, True  # either pick is the same up to rounding
            if nxt != bound and abs(hit - bound) <= tol:
                err[i:] = np.inf
                break
        else:
            cand = min(nxt, bound) if long_ else max(nxt, bound)
            exact = cand == bound
        if not exact and abs(hit - cand) <= tol:
            err[i:] = np.inf
            break
        turn = hit < cand if long_ else hit > cand
        if turn:
            sar = h[start:i].max() if long_ else lo[start:i].min()
            long_ = not long_
            ep = h[i] if long_ else lo[i]
            af, start = step, i
        else:
            if (ep_now > ep) if long_ else (ep_now < ep):
                af = min(cap, af + step)
            sar, ep = cand, ep_now
        out[i] = sar
    return {"sar": V(out, np.where(np.isinf(err), err, 1e-9 * np.abs(np.nan_to_num(out)) ))}


@ref("MassIndex")
def _(d):
    e1 = ema(V(d["high"]) - V(d["low"]), 9, minp=9)
    e2 = ema(e1, 9, minp=9)
    return {"mi": rsum(e1 / e2, 25)}


@ref("RelativeVolatilityIndex")
def _(d, period=5):
    res = []
    for col in ("high", "low"):
        x = V(d[col])
        ch = d[col] - x.shift(1).v
        sd = rstd(x, 10)
        with np.errstate(all="ignore"):
            u = where(ch > 0, sd, np.zeros(len(x)))
            w = where(ch < 0, sd, np.zeros(len(x)))
        u, w = wilder(u, period, None, 9), wilder(w, period, None, 9)
        res.append(100.0 * u / (u + w))
    return {"rvi": (res[0] + res[1]) / 2.0}


@ref("VolatilityChaikins")
def _(d, ema_period=10, change_period=10):
    e = ema(V(d["high"]) - V(d["low"]), ema_period, minp=ema_period)
    p = e.shift(change_period)
    return {"vch": 100.0 * ((e - p) / p)}


@ref("WilliamsAccumulationDistribution")
def _(d):
    h, lo, c = V(d["high"]), V(d["low"]), V(d["close"])
    pc = c.shift(1)
    n = len(c)
    with np.errstate(all="ignore"):
        up, dn = c.v > pc.v, c.v < pc.v
    z = np.zeros(n)
    z[0] = np.nan
    return {"wad": where(up, c - vmin(pc, lo), where(dn, c - vmax(pc, h), z))}
