"""Workload generators: OHLCV market histories of many regimes, reproducible from a JSON spec."""
import numpy as np
import pandas as pd

REGIMES = ("walk", "walk", "ties", "flatmid", "up", "down", "zigzag", "spike", "penny", "huge",
           "switch", "step", "sine", "doji", "flat", "calm", "flatstart", "gap", "plateau")
GRIDS = ("cent", "cent", "dyadic", "int", "fine")
VOLS = ("rand", "rand", "const", "zeros", "trend", "ties", "big", "float")


def _close(r, regime, n):
    t = np.arange(n)
    if regime == "walk":
        return 100 * np.exp(np.cumsum(r.normal(0, 0.02, n)))
    if regime == "calm":
        return 50 + np.cumsum(r.normal(0, 0.05, n)) + 10
    if regime == "ties":
        return np.maximum(60 + np.cumsum(r.integers(-1, 2, n)), 5).astype(float)
    if regime == "flatmid":
        c = 100 + np.cumsum(r.normal(0, 1, n))
        c = np.abs(c) + 5
        k = 0
        while k < n:
            k += int(r.integers(5, 40))
            m = int(r.integers(3, 35))
            if k < n:
                c[k:k + m] = c[k]
            k += m
        return c
    if regime == "flatstart":
        c = 80 + np.cumsum(r.normal(0, 1, n))
        c = np.abs(c) + 5
        m = min(n, int(r.integers(10, 60)))
        c[:m] = c[m - 1]
        return c
    if regime == "up":
        return 20 + np.cumsum(r.uniform(0.05, 1.5, n))
    if regime == "down":
        d = np.cumsum(r.uniform(0.05, 1.5, n))
        return 20 + d[-1] - d + 1
    if regime == "zigzag":
        return 100 + (t % 2) * r.uniform(1, 10) + r.uniform(0, 0.2) * t
    if regime == "spike":
        c = 100 + np.cumsum(r.normal(0, 1, n))
        c = np.abs(c) + 5
        return np.where(r.random(n) < 0.05, c * r.uniform(2, 10), c)
    if regime == "penny":
        return 0.05 + 0.5 * np.abs(np.sin(t / 9.0 + r.random())) * r.uniform(0.5, 1.0, n)
    if regime == "huge":
        return 1e6 * np.exp(np.cumsum(r.normal(0, 0.03, n)))
    if regime == "switch":
        s = np.ones(n)
        k, sg = 0, 1
        while k < n:
            m = int(r.integers(4, 45))
            s[k:k + m] = sg
            sg = -sg
            k += m
        return 200 + np.cumsum(s * r.uniform(0, 1.5, n)) + np.maximum(0, -(np.cumsum(s)).min() * 1.5)
    if regime == "step":
        c = np.repeat(r.uniform(20, 120, n // 4 + 2), r.integers(1, 12, n // 4 + 2))
        return c[:n] if len(c) >= n else np.concatenate([c, np.full(n - len(c), c[-1])])
    if regime == "sine":
        return 100 + 30 * np.sin(t / r.uniform(2.0, 15.0) + r.random() * 6) + r.normal(0, 0.6, n)
    if regime == "doji":
        return np.abs(70 + np.cumsum(r.normal(0, 1, n) * (r.random(n) < 0.6))) + 3
    if regime == "flat":
        return np.full(n, float(r.integers(5, 200)))
    if regime == "gap":
        return np.abs(100 + np.cumsum(r.normal(0, 0.5, n) + 12 * (r.random(n) < 0.06)
                                      * r.choice([-1, 1], n))) + 10
    if regime == "lattice":  # few price levels: thresholds are met exactly
        return 50.0 + r.integers(0, int(r.integers(3, 12)), n)
    if regime == "bulge":  # the range of the bars widens and narrows
        return np.abs(100 + np.cumsum(r.normal(0, 1, n))) + 20
    if regime == "plateau":  # small movements of a large price
        c = np.cumsum(r.normal(0, 0.3, n) * (r.random(n) < r.uniform(0.2, 1.0)))
        return float(10.0 ** r.uniform(3.5, 6.3)) + c * float(r.choice([0.05, 1.0, 3.0]))
    raise ValueError(regime)


def _snap(x, grid):
    if grid == "cent":
        return np.round(x, 2)
    if grid == "dyadic":
        return np.round(x * 8) / 8
    if grid == "int":
        return np.round(x)
    return np.round(x, 6)


def make(spec):
    """Builds the canonical (ascending, complete, float64) OHLCV frame of a data spec."""
    n, regime, grid = spec["n"], spec["regime"], spec["grid"]
    r = np.random.default_rng(spec["seed"])
    c = _close(r, regime, n)
    if regime == "penny" and grid in ("int", "dyadic", "cent"):
        grid = "p4"
    ulp = {"cent": 0.01, "dyadic": 0.125, "int": 1.0, "p4": 0.0001}.get(grid, 1e-6)
    snap = (lambda x: np.round(x, 4)) if grid == "p4" else (lambda x: _snap(x, grid))
    c = np.maximum(snap(c), ulp * 3)
    vola = np.abs(np.diff(c, prepend=c[0])).mean() + ulp
    gapn = r.normal(0, 0.5, n) * vola
    o = np.maximum(snap(c + gapn), ulp * 3)
    up, dn = r.exponential(0.6, n) * vola, r.exponential(0.6, n) * vola
    if regime == "bulge":
        f = np.exp(r.uniform(0.8, 2.5) * np.sin(np.arange(n) * 2 * np.pi / r.uniform(25, 90) + 6 * r.random()))
        up, dn = (0.3 + 0.2 * up) * f, (0.3 + 0.2 * dn) * f
    if regime in ("flat", "flatmid", "step", "flatstart", "doji"):
        still = np.concatenate([[False], c[1:] == c[:-1]])
        if regime == "flatstart":
            still[0] = True
        if regime == "doji":
            still |= r.random(n) < 0.3
        if regime == "flat" and spec["seed"] % 3:
            still[:] = True
        o = np.where(still, c, o)
        if spec["seed"] % 2 == 0:
            up, dn = np.where(still, 0, up), np.where(still, 0, dn)
    h = snap(np.maximum(o, c) + up)
    h = np.maximum(h, np.maximum(o, c))
    l = np.minimum(np.maximum(snap(np.minimum(o, c) - dn), ulp), np.minimum(o, c))
    vk = spec.get("vol", "rand")
    if vk == "rand":
        v = r.integers(1, 10 ** 6, n).astype(float)
    elif vk == "const":
        v = np.full(n, float(r.integers(1, 10 ** 5)))
    elif vk == "zeros":
        v = r.integers(0, 1000, n) * (r.random(n) < 0.6)
        v = v.astype(float)
        if n > 10:
            k = int(r.integers(0, n - 5))
            v[k:k + int(r.integers(3, 30))] = 0.0
    elif vk == "trend":
        v = 1000.0 + np.cumsum(r.integers(0, 50, n)) if spec["seed"] % 2 else \
            1000.0 + np.cumsum(r.integers(0, 50, n))[::-1]
        v = v.astype(float)
    elif vk == "ties":
        v = r.integers(1, 4, n) * 100.0
    elif vk == "big":
        v = r.integers(10 ** 8, 10 ** 10, n).astype(float)
    else:
        v = np.round(r.uniform(0.5, 5000, n), 2)
    return pd.DataFrame({"open": o, "high": h, "low": l, "close": c, "volume": v},
                        index=pd.date_range("2015-01-05", periods=n, freq="D"))


def sample(rng, n, regime=None, grid=None, vol=None):
    return {"regime": regime or str(rng.choice(REGIMES)), "grid": grid or str(rng.choice(GRIDS)),
            "vol": vol or str(rng.choice(VOLS)), "n": int(n), "seed": int(rng.integers(1 << 31))}


def arrays(df):
    return {c: df[c].to_numpy(dtype=float) for c in df.columns}


# ------------------------------------------------------------------ delivery to the library
INDEXES = ("daily", "daily", "business", "hourly", "minutes", "irregular", "weekly", "tz", "tzny", "old", "future",
           "ns", "seconds", "dst", "unit_s", "unit_ms", "unit_us", "named",
           "breaks", "breaks", "monthly", "sessions", "times", "quarters", "crypto")
EXTRAS = ("none", "none", "text", "num", "nan", "mixed", "intlabel", "near", "spaced")


def index_of(kind, n, seed=0):
    r = np.random.default_rng(seed + 17)
    if kind == "daily":
        return pd.date_range("2015-01-05", periods=n, freq="D")
    if kind == "business":
        return pd.date_range("2012-02-20", periods=n, freq="B")
    if kind == "hourly":
        return pd.date_range("2019-12-30 07:00", periods=n, freq="h")
    if kind == "minutes":
        return pd.date_range("2021-03-01 23:40", periods=n, freq="5min")
    if kind == "seconds":
        return pd.date_range("2021-12-31 23:58:00", periods=n, freq="7s")
    if kind == "weekly":
        return pd.date_range("1990-01-05", periods=n, freq="7D")
    if kind == "irregular":
        return pd.DatetimeIndex(np.datetime64("2001-01-01") + np.cumsum(
            r.integers(1, 40 if n <= 4000 else 12, n)).astype("timedelta64[D]").astype("timedelta64[ns]"))
    if kind == "tz":
        return pd.date_range("2016-01-01", periods=n, freq="D", tz="UTC")
    if kind == "tzny":
        return pd.date_range("2016-02-01", periods=n, freq="D", tz="America/New_York")
    if kind == "dst":
        return pd.date_range("2016-10-28", periods=n, freq="h", tz="Europe/Athens")
    if kind == "old":
        return pd.date_range("1905-06-01", periods=n, freq="D")
    if kind == "future":
        return pd.date_range("2090-06-01", periods=n, freq="D")
    if kind == "ns":
        return pd.DatetimeIndex(np.datetime64("2020-05-05T10:00:00", "ns") + np.cumsum(
            r.integers(1, 10 ** 9, n)).astype("timedelta64[ns]"))
    if kind.startswith("unit_"):
        return pd.date_range("2017-03-01 12:00", periods=n, freq="6h").as_unit(kind[5:])
    if kind == "breaks":  # instruments suspended for weeks to years
        gap = r.choice([1, 1, 1, 1, 2, 3], n).astype("int64")
        for a in r.integers(0, max(n, 1), int(r.integers(1, 6))):
            gap[a:a + 1] = int(r.choice([15, 40, 75, 130, 200, 370, 800, 1500, 4000]))
        return pd.DatetimeIndex(np.datetime64("1962-01-02") + np.cumsum(gap).astype("timedelta64[D]").astype("timedelta64[ns]"))
    if kind in ("monthly", "quarters"):
        f = ("ME" if kind == "monthly" else "QE") if n <= (2400 if kind == "monthly" else 800) else "7D"
        return pd.date_range("1899-11-28", periods=n, freq=f)
    if kind == "sessions":  # half-hour bars of working days
        d = pd.date_range("2020-12-21", periods=n // 13 + 1, freq="B")
        return pd.DatetimeIndex([t + pd.Timedelta(minutes=570 + 30 * j) for t in d for j in range(13)][:n])
    if kind == "times":  # one bar a day, at changing hours
        return pd.DatetimeIndex(pd.date_range("2015-12-20", periods=n, freq="D") + pd.to_timedelta(r.integers(0, 86400, n), unit="s"))
    if kind == "crypto":  # around the clock, minutes missing here and there
        return pd.DatetimeIndex(np.datetime64("2022-12-31T22:10", "ns") + np.cumsum(
            r.choice([1, 1, 1, 2, 61], n)).astype("timedelta64[m]").astype("timedelta64[ns]"))
    if kind == "named":
        return pd.date_range("2018-01-01", periods=n, freq="B", name="Date")
    raise ValueError(kind)


def holes(df, seed, kind=None):
    """A copy with missing values; every column keeps at least one known value."""
    r = np.random.default_rng(seed + 5)
    g = df.copy()
    n = len(g)
    for j, c in enumerate(g.columns):
        k = kind or str(r.choice(["none", "single", "lead", "trail", "runs", "dense", "most"]))
        m = np.zeros(n, bool)
        if k == "single":
            m[int(r.integers(n))] = True
        elif k == "lead":
            m[:int(r.integers(0, max(1, n // 2)))] = True
        elif k == "trail":
            m[n - int(r.integers(0, max(1, n // 2))):] = True
        elif k == "runs":
            for _ in range(3):
                a = int(r.integers(n))
                m[a:a + int(r.integers(1, 12))] = True
        elif k == "dense":
            m = r.random(n) < 0.4
        elif k == "most":
            m[:] = True
            m[int(r.integers(n))] = False
        if m.all():
            m[int(r.integers(n))] = False
        g.loc[m, c] = np.nan
    return g


def fill(df):
    """Reference fill: last known value in date order, before the first known one the next."""
    out = {}
    for c in df.columns:
        v = df[c].to_numpy(dtype=float)
        ok = np.flatnonzero(~np.isnan(v))
        if len(ok):
            pos = np.searchsorted(ok, np.arange(len(v)), side="right") - 1
            v = v[ok[np.maximum(pos, 0)]]
        out[c] = v
    return pd.DataFrame(out, index=df.index)


def present(df, how):
    """The same data presented differently. how: {rows, cols, case, extra, ints, seed}."""
    r = np.random.default_rng(how.get("seed", 0))
    g = df.copy()
    if how.get("ints"):
        for c in g.columns:
            v = g[c].to_numpy()
            if not np.isnan(v).any() and (v == np.round(v)).all() and (how["ints"] == "all" or r.random() < 0.5):
                g[c] = v.astype("int64")
    order = list(g.columns)
    if how.get("cols") == "shuffle":
        r.shuffle(order)
    elif how.get("cols") == "reverse":
        order = order[::-1]
    elif how.get("cols") == "close_last":
        order = [c for c in order if c != "close"] + [c for c in order if c == "close"]
    elif how.get("cols") == "volume_first":
        order = [c for c in order if c == "volume"] + [c for c in order if c != "volume"]
    g = g[order]
    ex = how.get("extra", "none")
    n = len(g)
    add = {}
    if ex in ("text", "mixed"):
        add["Symbol"] = ["x%d" % (i % 3) for i in range(n)]
    if ex in ("num", "mixed"):
        add["adj close"] = r.normal(0, 1, n) * 1e5
    if ex == "nan":
        add["dividends"] = np.full(n, np.nan)
    if ex == "intlabel":
        add[7] = np.arange(n) * 1.0
    if ex == "near":
        add["close_"], add["9_ema"], add["close_ema"], add["typical"] = (r.normal(0, 1, n) for _ in range(4))
    if ex == "spaced":
        add["close "], add[" volume"], add["high\t"] = (r.normal(0, 1, n) * 1e3 for _ in range(3))
    for k, v in add.items():
        at = int(r.integers(0, len(g.columns) + 1))
        g.insert(at, k, v)
    case = how.get("case", "lower")
    if case != "lower":
        f = {"upper": str.upper, "title": str.title,
             "mixed": lambda s: "".join(ch.upper() if (i + len(s)) % 2 else ch for i, ch in enumerate(s))}[case]
        g.columns = [f(c) if isinstance(c, str) else c for c in g.columns]
    rows = how.get("rows", "asc")
    if rows == "desc":
        g = g.iloc[::-1]
    elif rows == "shuffle":
        g = g.iloc[r.permutation(n)]
    elif rows == "swap" and n > 2:
        k = int(r.integers(n - 1))
        p = np.arange(n)
        p[k], p[k + 1] = k + 1, k
        g = g.iloc[p]
    elif rows == "rotate" and n > 2:
        g = g.iloc[np.roll(np.arange(n), int(r.integers(1, n)))]
    return g


def sample_how(rng):
    return {"rows": str(rng.choice(["asc", "desc", "shuffle", "swap", "rotate"])),
            "cols": str(rng.choice(["same", "shuffle", "reverse", "close_last", "volume_first"])),
            "case": str(rng.choice(["lower", "upper", "title", "mixed"])),
            "extra": str(rng.choice(EXTRAS)),
            "ints": str(rng.choice(["", "some", "all"])),
            "seed": int(rng.integers(1 << 30))}


def sample_delivery(rng, plain=0.55):
    """None (canonical) or {index, holes, how}."""
    if rng.random() < plain:
        return None
    d = {"index": str(rng.choice(INDEXES)), "how": sample_how(rng) if rng.random() < 0.6 else {},
         "holes": int(rng.integers(1, 1 << 30)) if rng.random() < 0.35 else 0}
    return d


def deliver(spec, d, cols=None):
    """(frame given to the library, canonical frame its contract refers to)."""
    df = make(spec)
    if cols is not None:
        df = df[[c for c in df.columns if c in cols]]
    if not d:
        return df, df.copy()
    df.index = index_of(d["index"], len(df), spec["seed"])
    if d["holes"]:
        df = holes(df, d["holes"])
    canon = fill(df)
    return present(df, d["how"]), canon
