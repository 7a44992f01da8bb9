"""Access to the library through its public interface, and comparison helpers."""
import numpy as np
import pandas as pd

from . import env, spec as sp

ti = env.load()

SIGNALS = {"buy": ("buy", -1), "hold": ("hold", 0), "sell": ("sell", 1)}


def build(name, frame, params, **k):
    return getattr(ti, name)(frame, **params, **k)


def fit_columns(name, frame, keep_all=True):
    return frame


def tolerances(series, S, x):
    """Admissible deviation of an observed column from reference x (ev.V), per row."""
    if series.dtype.kind in "iu":
        return np.where(x.e > 0, 1.0, 0.5)
    return 0.5 * 10.0 ** -S.digits * (1 + 1e-6) + x.e + 1e-15 * np.abs(x.v)


def mismatch(o, v, e, tol):
    """Rows where the observation contradicts the reference; rows with infinite bound are not judged."""
    with np.errstate(all="ignore"):
        amb = np.isinf(e)
        nan = np.isnan(v) | np.isnan(o)
        inf = np.isinf(v) | np.isinf(o)
        bad = np.where(nan, np.isnan(v) != np.isnan(o), np.where(inf, v != o, np.abs(o - v) > tol))
        return bad & ~amb, amb


def same(a, b, tol=0.0):
    """Two observed arrays agree (missing and infinite in the same places)."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol)
    return bool(ok.all())


def first_diff(a, b, tol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return {"shapes": [list(a.shape), list(b.shape)]}
    with np.errstate(all="ignore"):
        ok = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol)
    w = np.argwhere(~ok)
    if not len(w):
        return {}
    k = tuple(int(q) for q in w[0])
    return {"at": list(k), "first": float(a[k]), "second": float(b[k]), "differing": int(len(w))}


def structure(mon, name, params, data, index):
    """Result is a frame with the documented columns on the input's dates."""
    S = sp.SPECS[name]
    ok = isinstance(data, pd.DataFrame)
    mon.check(ok, "result is not a DataFrame", indicator=name, got=type(data).__name__)
    if not ok:
        return False
    if not mon.check(tuple(data.columns) == S.out(params), "result columns differ", indicator=name,
                     params=params, got=list(data.columns), expected=list(S.out(params))):
        return False
    want = index
    if name == "DetrendedPriceOscillator":
        want = index[:max(0, len(index) - 1 - S.full(params)["period"] // 2)]
    return mon.check(data.index.equals(want), "result dates differ from the input's dates", indicator=name,
                     params=params, rows=len(data), expected=len(want))


NUMCOLS = ("stock_value", "exposure", "portfolio_value", "earnings", "balance")
SIMCOLS = ("signal", "open_trading_action") + NUMCOLS


def simulate(ind, close, **k):
    """(record, statistics) of a simulation; the drawn figure is closed."""
    import matplotlib.pyplot as plt

    rec, stats, _g = ind.getTiSimulation(close, **k)
    plt.close("all")
    return rec, stats


def record(rec):
    """Comparable form of a simulation record."""
    num = np.stack([pd.to_numeric(rec[c], errors="coerce").to_numpy(dtype=float) for c in NUMCOLS], axis=1)
    txt = [[None if (x is None or x != x) else str(x) for x in rec[c]] for c in SIMCOLS[:2]]
    return num, txt


def same_record(a, b, tol=0.0, rows=None):
    (na, ta), (nb, tb) = record(a), record(b)
    if rows is not None:
        na, nb, ta, tb = na[:rows], nb[:rows], [t[:rows] for t in ta], [t[:rows] for t in tb]
    return same(na, nb, tol) and ta == tb


def same_stats(a, b, tol=0.0):
    if list(a) != list(b):
        return False
    return all((a[k] == b[k]) or abs(float(a[k]) - float(b[k])) <= tol or (a[k] != a[k] and b[k] != b[k]) for k in a)


def needed(name, df):
    """The columns an indicator requires (canonical order)."""
    return df[[c for c in df.columns if c in sp.SPECS[name].req]]


def shot(df):
    """Deep, bit-exact picture of a caller's frame."""
    if isinstance(df, pd.Series):
        df = df.to_frame()
    cols = []
    for j in range(df.shape[1]):
        s = df.iloc[:, j]
        v = s.to_numpy()
        cols.append((str(s.dtype), v.tobytes() if v.dtype != object else repr(list(v))))
    ix = df.index
    return (repr(list(df.columns)), cols, str(ix.dtype), ix.asi8.tobytes() if isinstance(ix, pd.DatetimeIndex)
            else repr(list(ix)), repr(ix.names), repr(getattr(ix, "freq", None)), repr(df.columns.names), repr(df.attrs),
            id(df.columns) and df.shape)
