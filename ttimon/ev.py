"""Error-tracked float64 vectors.

Every reference value carries a bound on how far a *correct* float64 evaluation of
the same formula (any summation order, online or windowed) may be from it.  Rows
whose bound is infinite are ambiguous (e.g. division by something that is zero up
to rounding) and are reported as such, never judged.
"""
import numpy as np

U = 2.3e-16
K = 16.0  # slack on every elementary bound


def _dy(*arrs):
    """All finite values are multiples of 2^-20 and small: + and - on them are exact."""
    for v in arrs:
        w = v[np.isfinite(v)]
        if w.size and (np.abs(w).max() > 2.0 ** 40 or np.any(w * 1024 != np.round(w * 1024))):
            return False
    return True


class V:
    __slots__ = ("v", "e")
    __array_priority__ = 100

    def __init__(self, v, e=None):
        self.v = np.asarray(v, dtype=float)
        self.e = np.zeros_like(self.v) if e is None else np.broadcast_to(
            np.asarray(e, dtype=float), self.v.shape).copy()

    def __len__(self):
        return len(self.v)

    @staticmethod
    def of(x, like=None):
        if isinstance(x, V):
            return x
        x = np.asarray(x, dtype=float)
        if x.ndim == 0 and like is not None:
            x = np.full(like.v.shape, float(x))
        return V(x)

    def _fin(self, o, v, e):
        """NaN of a certainly undefined operand is certain; any other NaN bound is unknown."""
        e = np.where(np.isnan(e), np.inf, e)
        e = np.where(np.isnan(v) & ~np.isinf(e), 0.0, e)
        sure = (np.isnan(self.v) & ~np.isinf(self.e)) | (np.isnan(o.v) & ~np.isinf(o.e))
        return V(v, np.where(sure, 0.0, e))

    def __add__(self, o):
        o = V.of(o, self)
        with np.errstate(all="ignore"):
            v = self.v + o.v
            u = 0.0 if _dy(self.v, o.v) else K * U * np.maximum(np.abs(v), 0)
            return self._fin(o, v, self.e + o.e + np.where(np.isfinite(v), u, 0))

    __radd__ = __add__

    def __neg__(self):
        return V(-self.v, self.e)

    def __sub__(self, o):
        return self + (-V.of(o, self))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = V.of(o, self)
        with np.errstate(all="ignore"):
            v = self.v * o.v
            a = np.where(o.e > 0, np.abs(self.v) * o.e, 0) + np.where(self.e > 0, np.abs(o.v) * self.e, 0)
            a = a + self.e * o.e
            u = np.where(np.isfinite(v), K * U * np.abs(v), 0)
            if _dy(v, self.v, o.v):
                u = 0.0
            return self._fin(o, v, a + u)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = V.of(o, self)
        with np.errstate(all="ignore"):
            v = self.v / o.v
            exact0 = (o.v == 0) & (o.e == 0)
            den = np.abs(o.v) - o.e
            e = (self.e + np.abs(v) * o.e) / den + np.where(np.isfinite(v), K * U * np.abs(v), 0)
            e = np.where(den <= 0, np.inf, e)
            # x / 0 with an exact zero: IEEE, exact provided sign / zeroness of x is certain
            e = np.where(exact0, np.where((self.e == 0) | (np.abs(self.v) > self.e), 0.0, np.inf), e)
            e = np.where(np.isinf(o.v) & (o.e == 0), 0.0, e)
            e = np.where(np.isinf(self.v) & (self.e == 0) & (den > 0), 0.0, e)
            return self._fin(o, v, e)

    def __rtruediv__(self, o):
        return V.of(o, self) / self

    def abs(self):
        return V(np.abs(self.v), self.e)

    def shift(self, k):
        n = len(self.v)
        v, e = np.full(n, np.nan), np.zeros(n)
        if 0 <= k < n:
            v[k:], e[k:] = self.v[: n - k], self.e[: n - k]
        elif k < 0 and -k < n:
            v[:k], e[:k] = self.v[-k:], self.e[-k:]
        return V(v, e)

    def clip(self, lo, hi):
        return V(np.where(np.isnan(self.v), np.nan, np.clip(self.v, lo, hi)), self.e)

    def round(self, k=4):
        """Half-way cases may fall on either side; everything else is certain."""
        with np.errstate(all="ignore"):
            s = self.v * 10.0 ** k
            r = np.where(np.isfinite(s), np.round(s) / 10.0 ** k, self.v)
            frac = np.abs(s - np.floor(s) - 0.5) / 10.0 ** k
            amb = frac <= self.e + 4 * U * np.abs(self.v)
            e = np.where(np.isfinite(s), np.where(amb, 10.0 ** -k + self.e, K * U * np.abs(r)), self.e)
            e = np.where(self.e >= 0.25 * 10.0 ** -k, self.e + 10.0 ** -k, e)
            return V(r, e)


def vmax(*vs):
    vs = [V.of(x) for x in vs]
    v = np.max(np.stack([x.v for x in vs]), axis=0)  # NaN propagates
    return V(v, np.max(np.stack([x.e for x in vs]), axis=0))


def vmin(*vs):
    return -vmax(*[-V.of(x) for x in vs])


def vmax_skip(*vs):
    """Row-wise maximum, missing entries skipped."""
    vs = [V.of(x) for x in vs]
    a = np.stack([np.where(np.isnan(x.v), -np.inf, x.v) for x in vs])
    v = a.max(axis=0)
    v = np.where(np.all(np.stack([np.isnan(x.v) for x in vs]), axis=0), np.nan, v)
    return V(v, np.max(np.stack([x.e for x in vs]), axis=0))


def _clean(x):
    return V(np.where(np.isinf(x.v), np.nan, x.v), np.where(np.isinf(x.v) & np.isfinite(x.e), 0, x.e))


def _win(a, p):
    return np.lib.stride_tricks.sliding_window_view(a, p)


def _hist(v):
    m = np.where(np.isfinite(v), np.abs(v), 0.0)
    return np.maximum.accumulate(m)


def rsum(x, p, minp=None):
    """Rolling sum over exactly p rows; undefined while a row of the window is undefined."""
    x = _clean(V.of(x))
    n = len(x)
    v, e = np.full(n, np.nan), np.zeros(n)
    if n >= p:
        w, we = _win(x.v, p), _win(x.e, p)
        s = np.array([np.nan if np.isnan(q).any() else float(np.sum(q)) for q in w])
        same = (w == w[:, :1]).all(axis=1)
        s = np.where(same, w[:, 0] * p, s)
        if _dy(x.v) and not np.any(x.e):
            er = np.zeros(len(s))
        else:
            er = we.sum(axis=1) + np.where(same, K * U * np.abs(s), K * U * p * _hist(x.v)[p - 1:])
            er = np.where(same & (w[:, 0] == 0) & (we.sum(axis=1) == 0), 0.0, er)
        sure = (np.isnan(w) & ~np.isinf(we)).any(axis=1)
        v[p - 1:], e[p - 1:] = s, np.where(sure | (np.isnan(s) & np.isfinite(er)), 0, er)
    return V(v, e)


def rmean(x, p):
    return rsum(x, p) / float(p)


def rmax(x, p):
    x = _clean(V.of(x))
    n = len(x)
    v, e = np.full(n, np.nan), np.zeros(n)
    if n >= p:
        v[p - 1:], e[p - 1:] = _win(x.v, p).max(axis=1), _win(x.e, p).max(axis=1)
    return V(v, np.where(np.isnan(v) & np.isfinite(e), 0, e))


def rmin(x, p):
    return -rmax(-V.of(x), p)


def rmax1(x, p):
    """Rolling maximum over at most p rows (window grows from the first row)."""
    x = V.of(x)
    return V(np.array([x.v[max(0, i - p + 1): i + 1].max() for i in range(len(x))]), 0)


def rmin1(x, p):
    return -rmax1(-V.of(x), p)


def rstd(x, p):
    """Population standard deviation over p rows."""
    x = _clean(V.of(x))
    n = len(x)
    v, e = np.full(n, np.nan), np.zeros(n)
    if n >= p:
        w = _win(x.v, p)
        m = w.mean(axis=1, keepdims=True)
        var = ((w - m) ** 2).mean(axis=1)
        same = (w == w[:, :1]).all(axis=1)
        var = np.where(same, 0.0, var)
        h = _hist(x.v)[p - 1:]
        with np.errstate(all="ignore"):
            span = (np.fmax.accumulate(x.v) - np.fmin.accumulate(x.v))[p - 1:]
        # deviations from a running mean, updated row by row, lose this much at most (squares of the values would lose more)
        online = 4 * K * U * h * np.where(np.isfinite(span), span, h) * np.arange(p, n + 1) / p + (K * U * h) ** 2
        evar = np.where(same, 0.0, np.minimum(8 * K * U * h ** 2, online))
        with np.errstate(all="ignore"):
            sd = np.sqrt(var)
            er = np.sqrt(var + evar) - np.sqrt(np.maximum(var - evar, 0.0)) + K * U * sd
        v[p - 1:], e[p - 1:] = sd, np.where(np.isnan(sd), 0, er)
    return V(v, e)


def ema(x, span=None, alpha=None, minp=1):
    """y[t] = (1-a) y[t-1] + a x[t]; a missing x keeps y and decays its weight."""
    x = _clean(V.of(x))
    a = 2.0 / (span + 1.0) if alpha is None else alpha
    n = len(x)
    v, e = np.full(n, np.nan), np.zeros(n)
    cur, ce, w, cnt = np.nan, 0.0, 1.0, 0
    for i in range(n):
        xi = x.v[i]
        obs = not np.isnan(xi)
        if np.isinf(x.e[i]):
            ce = np.inf
        if obs:
            cnt += 1
        if not np.isnan(cur):
            w *= 1.0 - a
            if obs:
                if cur != xi:
                    t = w + a
                    ce = (w * ce + a * x.e[i]) / t + 4 * U * max(abs(cur), abs(xi))
                    cur = (w * cur + a * xi) / t
                else:
                    ce = max(ce, x.e[i])
                w = 1.0
        elif obs:
            cur, ce = xi, max(ce, x.e[i])
        if cnt >= minp and not np.isnan(cur):
            v[i] = cur
        e[i] = ce if not np.isnan(v[i]) else (np.inf if np.isinf(ce) else 0.0)
    return V(v, e)


def where(mask, a, b):
    a, b = V.of(a), V.of(b)
    return V(np.where(mask, a.v, b.v), np.where(mask, a.e, b.e))
