"""T01-T06: the trading simulation as a ledger, its statistics, causality, arguments, faults and invariants."""
import os
import sys

import numpy as np
import pandas as pd

from .. import env, gen, lib, spec as sp
from ..runner import Check
from . import signals as sig

from tti.utils import exceptions as tex

NAME = {"buy": ("buy", -1), "hold": ("hold", 0), "sell": ("sell", 1)}
KINDS = ("rand", "rand", "rand", "dense", "sparse", "buys", "sells", "alternate", "bursts", "first", "real")
REGS = gen.REGIMES + ("lattice",) * 6 + ("ties",) * 3 + ("sine", "switch", "zigzag")
KEYS = ["number_of_trading_days", "number_of_buy_signals", "number_of_ignored_buy_signals", "number_of_sell_signals",
        "number_of_ignored_sell_signals", "last_stock_value", "last_exposure", "last_open_long_positions",
        "last_open_short_positions", "last_portfolio_value", "last_earnings", "final_balance"]


# ------------------------------------------------------------------ scripted histories
def script(kind, n, seed):
    r = np.random.default_rng(seed)
    words = np.array(["hold", "buy", "sell"])
    if kind == "rand":
        return list(r.choice(words, n))
    if kind == "dense":
        return list(r.choice(words[1:], n))
    if kind == "sparse":
        return list(r.choice(words, n, p=[0.9, 0.05, 0.05]))
    if kind == "buys":
        return ["buy"] * n
    if kind == "sells":
        return ["sell"] * n
    if kind == "alternate":
        return [("buy", "sell")[(i + seed) % 2] for i in range(n)]
    if kind == "first":
        return ["buy" if seed % 2 else "sell"] + list(r.choice(words, n - 1, p=[0.7, 0.15, 0.15]))
    out = []
    while len(out) < n:
        out += [str(r.choice(words))] * int(r.integers(1, 12))
    return out[:n]


def scripted(name, frame, params, words):
    """The indicator with its signal of day k replaced by words[k] (day known from its own public data)."""
    cls = getattr(lib.ti, name)

    def getTiSignal(self):
        return NAME[words[len(self.getTiData()) - 1]]
    return type(name, (cls,), {"getTiSignal": getTiSignal})(frame, **params)


def sample_sim(rng, name, k, long=150):
    S = sp.SPECS[name]
    p = S.sample(rng, big=25)
    kind = str(rng.choice(KINDS)) if name not in ("DetrendedPriceOscillator",) else str(rng.choice(KINDS[:-1]))
    n = S.need(p) + int(rng.integers(2, 25 if k % 3 == 0 else long))
    if kind == "real":
        n += sig.LONG.get(name, 0) if sig.LONG.get(name, 0) < 100 else 0
    regime = str(rng.choice(REGS))
    grid = "int" if regime in ("lattice", "ties") and k % 3 else None
    return {"ind": name, "params": p, "data": gen.sample(rng, n, regime, grid), "kind": kind,
            "seed": int(rng.integers(1 << 30)), "delivery": gen.sample_delivery(rng, 0.7),
            "other": gen.sample(rng, n, str(rng.choice(REGS))) if rng.random() < 0.35 else None,
            "limit": [str(rng.choice(["none", "none", "mul", "mul", "mul", "exact", "exact", "int"])),
                      float(np.round(rng.choice([0.5, 0.99, 1.0, 1.5, 2.0, 2.5, 3.7, 6.0, 12.0, 40.0]), 3)),
                      int(rng.integers(1, 5)), int(rng.integers(1 << 30))],
            "factor": [1.5, 1.5, 1, 1.0, 2, 1.25, 1.1, 3.75, 1.3][int(rng.integers(9))]}


def limit_of(case, close):
    kind, mul, cnt, seed = case["limit"]
    if kind == "none":
        return None
    if kind == "mul":
        return float(mul * np.mean(close))
    if kind == "int":
        return max(1, int(mul * np.mean(close)))
    r = np.random.default_rng(seed)
    picks = [float(close[int(r.integers(len(close)))]) for _ in range(cnt)]
    return float(sum(x * (case["factor"] if r.random() < 0.4 else 1.0) for x in picks))


def start(case):
    """(indicator, close frame given, canonical close by date, limit, script or None)."""
    name, p = case["ind"], case["params"]
    frame, canon = gen.deliver(case["data"], case["delivery"])
    close = canon["close"].to_numpy()
    given = frame
    if case["other"]:
        o = gen.make(case["other"])[["close"]]
        o.index = canon.index
        close = o["close"].to_numpy()
        given = gen.present(o, {"rows": "shuffle", "seed": case["seed"]}) if case["seed"] % 2 else o
    if case.get("coins"):  # few prices: what closes and what opens often commits the same amount
        r = np.random.default_rng(case["coins"])
        b, f = float(r.choice([8, 10, 12, 64])), float(case["factor"])
        few = [b, b * f, 2 * b, 2 * b * f, 3 * b, b * f * f][:int(r.integers(2, 7))]
        close = r.choice(few, len(canon))
        given = pd.DataFrame({"close": close}, index=canon.index)
    words = None
    if case["kind"] == "real":
        ind = lib.build(name, frame, p)
    else:
        words = script(case["kind"], len(canon), case["seed"])
        ind = scripted(name, frame, p, words)
    return ind, given, canon, close, limit_of(case, close), words


# ------------------------------------------------------------------ the reference ledger
def near(a, b, scale):
    return abs(a - b) <= 1e-9 * max(1.0, scale)


def ledger(mon, words, close, limit, factor, acts, rows):
    """Sequential model. Yields (action, exposure, portfolio, earnings, balance) per executed day.

    Comparisons which float64 rounding leaves open follow the observed action."""
    longs, shorts, earned, out = [], [], 0.0, []
    for i in range(rows):
        c = close[i]
        if i == 0:
            out.append(("none", 0.0, 0.0, 0.0, 0.0))
            continue
        earned += sum(c - e for e in longs if e < c) + sum(e - c for e in shorts if e > c)
        mon.ev("closed_longs", sum(e < c for e in longs))
        mon.ev("closed_shorts", sum(e > c for e in shorts))
        longs = [e for e in longs if not e < c]
        shorts = [e for e in shorts if not e > c]
        expo = sum(longs) + factor * sum(shorts)
        act = "none"
        if words[i] in ("buy", "sell"):
            cost = c if words[i] == "buy" else factor * c
            act = "long" if words[i] == "buy" else "short"
            if limit is not None:
                if near(limit, expo + cost, abs(limit)) and not exact(limit, expo, cost, longs, shorts, factor):
                    mon.ev("ties_not_decidable")
                    act = acts[i] if acts[i] in (act, "none") else act
                elif limit < expo + cost:
                    act = "none"
                elif limit == expo + cost:
                    mon.ev("limit_met_exactly")
            if act == "none":
                mon.ev("refused")
            else:
                (longs if act == "long" else shorts).append(c)
                mon.ev("opened_" + act)
        expo = sum(longs) + factor * sum(shorts)
        port = c * (len(longs) - len(shorts))
        out.append((act, expo, port, earned, port + earned))
    return out, len(longs), len(shorts)


def exact(limit, expo, cost, longs, shorts, factor):
    """All terms are multiples of 2**-10 and small: float64 sums in any order are exact."""
    v = [limit, expo, cost, factor * 64] + longs + shorts + [factor * e for e in shorts]
    return all(abs(x) < 2 ** 35 and (x * 1024) == int(x * 1024) for x in v)


def simulate(case, mon):
    ind, given, canon, close, limit, words = start(case)
    rows = len(ind.getTiData())
    rec, stats = lib.simulate(ind, given, max_exposure=limit, short_exposure_factor=case["factor"])
    mon.state(case["ind"], case["params"], case["kind"], case["data"]["regime"], case["limit"][0], case["limit"][1],
              case["factor"], rows // 8)
    return ind, rec, stats, canon, close, limit, words, rows


def t01(case, mon):
    _ind, rec, _stats, canon, close, limit, words, rows = simulate(case, mon)
    name = case["ind"]
    ctx = dict(indicator=name, params=case["params"], max_exposure=limit, factor=case["factor"])
    if not mon.check(isinstance(rec, pd.DataFrame) and list(rec.columns) == list(lib.SIMCOLS),
                     "columns of the simulation record differ", got=repr(getattr(rec, "columns", None)), **ctx):
        return
    mon.check(rec.index.equals(canon.index), "dates of the simulation record differ from the input's", **ctx)
    num, (sg, acts) = lib.record(rec)
    if words is not None:
        mon.check(sg[:rows] == words[:rows], "reported signal is not the one given on that day", got=sg[:rows][:40],
                  expected=words[:rows][:40], **ctx)
    bad = [i for i in range(rows) if sg[i] not in NAME]
    if not mon.check(not bad, "a simulated day has no documented signal", day=bad[:3], **ctx):
        return
    mon.check(all(x is None for x in sg[rows:]) and np.isnan(num[rows:]).all(),
              "days without indicator data carry a simulation record", rows=rows, **ctx)
    model, _l, _s = ledger(mon, sg, close, limit, case["factor"], acts, rows)
    for i, m in enumerate(model):
        mon.ev("days")
        if not mon.check(acts[i] == m[0], "trading action differs from the trading rules", day=i, signal=sg[i], got=acts[i],
                         expected=m[0], exposure_before=float(num[i - 1][1]) if i else 0.0, close=float(close[i]), **ctx):
            return
        want = np.array([close[i], m[1], m[2], m[3], m[4]])
        tol = 1e-7 * (1 + np.abs(want).max() + np.abs(close[:i + 1]).max())
        if not mon.check(lib.same(num[i], want, tol), "daily record differs from the ledger", day=i, signal=sg[i],
                         action=acts[i], got=[float(x) for x in num[i]], expected=[float(x) for x in want], **ctx):
            return


# ------------------------------------------------------------------ T02
def positions(rec_num, acts, rows, factor):
    longs, shorts = [], []
    for i in range(1, rows):
        c = rec_num[i][0]
        longs = [e for e in longs if not e < c]
        shorts = [e for e in shorts if not e > c]
        if acts[i] == "long":
            longs.append(c)
        elif acts[i] == "short":
            shorts.append(c)
        yield i, longs, shorts


def t02(case, mon):
    _ind, rec, stats, _canon, close, limit, _w, rows = simulate(case, mon)
    ctx = dict(indicator=case["ind"], params=case["params"], max_exposure=limit, factor=case["factor"])
    if not mon.check(isinstance(stats, dict) and sorted(stats) == sorted(KEYS), "keys of the statistics differ",
                     got=sorted(map(str, stats)), **ctx):
        return
    num, (sg, acts) = lib.record(rec)
    done = [i for i in range(len(sg)) if sg[i] is not None]
    mon.check(done == list(range(rows)), "simulated days are not those with indicator data", **ctx)
    want = {"number_of_trading_days": rows}
    for w in ("buy", "sell"):
        want["number_of_%s_signals" % w] = sum(x == w for x in sg)
        want["number_of_ignored_%s_signals" % w] = sum(x == w and a == "none" for x, a in zip(sg, acts))
    longs, shorts = [], []
    for _i, longs, shorts in positions(num, acts, rows, case["factor"]):
        pass
    want["last_open_long_positions"], want["last_open_short_positions"] = len(longs), len(shorts)
    last = num[rows - 1]
    money = dict(zip(("last_stock_value", "last_exposure", "last_portfolio_value", "last_earnings", "final_balance"), last))
    for k in KEYS:
        mon.ev("statistics")
        got = stats[k]
        if not mon.check(isinstance(got, (int, float, np.integer, np.floating)) and not isinstance(got, bool),
                         "a statistic is not a number", key=k, got=repr(got), **ctx):
            continue
        if k in want:
            if want[k]:
                mon.ev("positive:" + k)
            mon.check(int(got) == want[k] and got == int(got), "a statistic differs from the daily record", key=k,
                      got=float(got), expected=int(want[k]), **ctx)
        else:
            x = float(money[k])
            mon.check(abs(float(got) - x) <= 0.005 + 1e-9 * (1 + abs(x)), "a statistic differs from the daily record",
                      key=k, got=float(got), expected=x, **ctx)
            mon.check(abs(float(got) * 100 - round(float(got) * 100)) < 1e-6 * (1 + abs(x)),
                      "a statistic is not rounded to two decimals", key=k, got=float(got), **ctx)


# ------------------------------------------------------------------ T06
def t06(case, mon):
    _ind, rec, _stats, _canon, close, limit, _w, rows = simulate(case, mon)
    f = case["factor"]
    ctx = dict(indicator=case["ind"], params=case["params"], max_exposure=limit, factor=f)
    num, (sg, acts) = lib.record(rec)
    scale = 1 + float(np.abs(close).max()) * max(1, f)
    tol = 1e-7 * scale * 10
    mon.check(list(num[0][1:]) == [0.0] * 4 and acts[0] == "none", "something was traded on the first day",
              got=[float(x) for x in num[0]], action=acts[0], **ctx)
    for i, longs, shorts in positions(num, acts, rows, f):
        price, expo, port, earn, bal = num[i]
        mon.ev("days")
        d = dict(day=i, signal=sg[i], action=acts[i], row=[float(x) for x in num[i]], previous=[float(x) for x in num[i - 1]])
        d.update(ctx)
        mon.ev("open_positions", len(longs) + len(shorts))
        ok = mon.check(abs(expo - sum(longs) - f * sum(shorts)) <= tol + 1e-9 * abs(expo),
                       "exposure is not what the open positions hold", expected=float(sum(longs) + f * sum(shorts)), **d)
        ok &= mon.check(earn >= num[i - 1][3] - tol, "earnings decreased", **d)
        ok &= mon.check(abs(bal - port - earn) <= tol + 1e-9 * abs(bal), "balance is not portfolio value plus earnings", **d)
        ok &= mon.check(abs(port - price * (len(longs) - len(shorts))) <= tol + 1e-9 * abs(port),
                        "portfolio value is not the value of the open positions", **d)
        ok &= mon.check((sg[i] == "hold") <= (acts[i] == "none") and (acts[i] != "long" or sg[i] == "buy")
                        and (acts[i] != "short" or sg[i] == "sell"), "action does not follow the day's signal", **d)
        if acts[i] != "none" and limit is not None:
            mon.ev("opened_under_limit")
            ok &= mon.check(expo <= limit + 1e-9 * scale * 10, "a position was opened above the maximum exposure", **d)
        if sg[i] != "hold" and acts[i] == "none":
            mon.ev("refused")
            cost = price * (f if sg[i] == "sell" else 1)
            ok &= mon.check(limit is not None, "a signal was ignored without a maximum exposure", **d)
            if limit is not None:
                ok &= mon.check(expo + cost > limit - 1e-9 * scale * 10, "a signal within the maximum exposure was ignored",
                                **d)
        if not ok:
            return


def t_cases(quick, thorough, long=150):
    def cases(rng, tier):
        m = quick if tier == "quick" else thorough
        out = [sample_sim(rng, name, k, long) for name in sp.NAMES for k in range(m)]
        for k in range(32 if tier == "quick" else 500):  # long histories
            c = sample_sim(rng, str(rng.choice([x for x in sp.NAMES if sp.SPECS[x].causal])), k, long)
            n = int(rng.integers(250, 1100 if k % 4 == 0 else 500))
            c.update(kind=str(rng.choice(KINDS[:-1])), data=dict(c["data"], n=n))
            if c["other"]:
                c["other"]["n"] = n
            out.append(c)
        for k in range(160 if tier == "quick" else 2500):
            c = sample_sim(rng, str(rng.choice(["TypicalPrice", "Performance", "MedianPrice", "WeightedClose"])), k, 60)
            c.update(kind=str(rng.choice(KINDS[:-1])), other=None, coins=int(rng.integers(1, 1 << 30)))
            out.append(c)
        return out
    return cases


# ------------------------------------------------------------------ T03
CAUSAL = [n for n in sp.NAMES if sp.SPECS[n].causal]
NS3 = {"quick": 9, "thorough": 130}


def t03_cases(rng, tier):
    out = []
    for name in CAUSAL:
        for k in range(NS3[tier]):
            c = sample_sim(rng, name, k, 90)
            c["kind"] = "real"
            S = sp.SPECS[name]
            extra = sig.LONG.get(name, 0)
            n = S.need(c["params"]) + extra + int(rng.integers(3, 90))
            c["data"]["n"] = n
            c["delivery"] = None
            c["index"] = str(rng.choice(gen.INDEXES))
            if c["other"]:
                c["other"]["n"] = n
            c["days"] = int(rng.integers(1 << 30))
            c["change"] = str(rng.choice(["regime", "scale", "flat", "cut", "reverse", "crash"]))
            out.append(c)
    return out


def alter(df, at, how, seed):
    """The same data up to row at, another continuation."""
    g = df.copy()
    r = np.random.default_rng(seed)
    tail = slice(at + 1, None)
    m = len(df) - at - 1
    if how == "cut":
        return g.iloc[:at + 1]
    if how == "scale":
        g.iloc[tail] = g.iloc[tail] * 3.0
    elif how == "crash":
        f = np.linspace(0.9, 0.05, m)[:, None]
        g.iloc[tail] = g.iloc[tail].to_numpy() * f
    elif how == "flat":
        g.iloc[tail, :] = g.iloc[at].to_numpy()
    elif how == "reverse":
        g.iloc[tail] = g.iloc[tail].to_numpy()[::-1]
    else:
        o = gen.make({"regime": "walk", "grid": "cent", "vol": "rand", "n": m + 1, "seed": int(r.integers(1 << 30))})
        g.iloc[tail] = o[list(df.columns)].iloc[1:].to_numpy()
    return g


def t03(case, mon):
    name, p = case["ind"], case["params"]
    S = sp.SPECS[name]
    df = gen.make(case["data"])
    df.index = gen.index_of(case["index"], len(df), case["data"]["seed"])
    close = df
    if case["other"]:
        close = gen.make(case["other"])[["close"]]
        close.index = df.index
    lim = limit_of(case, close["close"].to_numpy())
    kw = dict(max_exposure=lim, short_exposure_factor=case["factor"])
    rec, _s = lib.simulate(lib.build(name, df, p), close, **kw)
    _num, (sg, _acts) = lib.record(rec)
    n, need = len(df), max(1, S.need(p))
    r = np.random.default_rng(case["days"])
    acted = [i for i in range(need - 1, n) if sg[i] != "hold"]
    days = set(int(x) for x in r.integers(need - 1, n, 5)) | set(acted[:2]) | {n - 1, need - 1}
    if acted:
        days |= set(int(x) for x in r.choice(acted, min(5, len(acted)), replace=False))
    for i in sorted(days):
        got = lib.build(name, df.iloc[:i + 1], p).getTiSignal()
        mon.ev("days_compared_with_a_fresh_indicator")
        if got[0] != "hold":
            mon.ev("acted_days")
        if not mon.check(got == NAME.get(sg[i]), "simulated signal is not the one of the data up to that day",
                         indicator=name, params=p, day=i, rows=n, simulated=sg[i], fresh=repr(got)):
            break
    for at in {int(r.integers(need - 1, n)), int(r.integers(max(need - 1, n - 12), n))}:
        g, c2 = alter(df, at, case["change"], case["days"]), alter(close, at, case["change"], case["days"] + 1)
        rec2, _s2 = lib.simulate(lib.build(name, g, p), c2, **kw)
        mon.ev("days_compared_with_other_futures", at + 1)
        mon.check(lib.same_record(rec, rec2, rows=at + 1), "a daily record changes with data after that day",
                  indicator=name, params=p, day=at, rows=n, change=case["change"],
                  difference=lib.first_diff(lib.record(rec)[0][:at + 1], lib.record(rec2)[0][:at + 1]))
    mon.state(name, p, case["data"]["regime"], case["change"], case["index"], n // 8)


# ------------------------------------------------------------------ T04
DATA_BAD = ("none", "list", "series", "dict", "array", "empty", "no_close", "int_index", "text_index", "shifted", "missing_row",
            "extra_row", "text", "other_tz", "one_moved", "mixed_text", "no_columns", "truncated", "open_only", "longer")
LIMIT_BAD = {"value": [0, -1, 0.0, -0.5, -1e-9, -1e18], "type": ["10", [10], (1,), {"max": 1}, b"1", 1j]}
FACTOR_BAD = {"value": [0, 0.99, 0.999999, -1, -1.5, 0.0, -10 ** 9], "type": ["1.5", [2], None, {}, (1.5,), 2j]}
NT4 = {"quick": 20, "thorough": 420}


def t04_cases(rng, tier):
    out = []
    for name in sp.NAMES:
        S = sp.SPECS[name]
        for k in range(NT4[tier]):
            c = sample_sim(rng, name, k, 40)
            c["data"]["n"] = S.need(c["params"]) + int(rng.integers(3, 40))
            if c["other"]:
                c["other"]["n"] = c["data"]["n"]
            c["kind"] = str(rng.choice(KINDS[:-1]))
            u = k % 4
            if u == 0:
                c["mode"] = ["data", str(rng.choice(DATA_BAD))]
            elif u == 1:
                arg = str(rng.choice(["max_exposure", "short_exposure_factor"]))
                why = str(rng.choice(["value", "type"]))
                c["mode"] = ["arg", arg, why, int(rng.integers(6))]
            elif u == 2:
                c["mode"] = ["several", str(rng.choice(DATA_BAD)), int(rng.integers(7)), int(rng.integers(6))]
            else:
                c["mode"] = ["present", gen.sample_how(rng), int(rng.integers(1, 1 << 30)) if rng.random() < 0.6 else 0,
                             str(rng.choice(gen.INDEXES))]
            out.append(c)
    return out


def bad_close(kind, good, seed):
    r = np.random.default_rng(seed)
    g = good.copy()
    n = len(g)
    if kind == "none":
        return None
    if kind == "list":
        return list(g["close"])
    if kind == "series":
        return g["close"]
    if kind == "dict":
        return {"close": list(g["close"])}
    if kind == "array":
        return g.to_numpy()
    if kind == "empty":
        return g.iloc[:0]
    if kind == "no_close":
        return g.rename(columns={"close": "last"})
    if kind == "open_only":
        return g.rename(columns={"close": "open"})
    if kind == "no_columns":
        return g[[]]
    if kind == "int_index":
        return g.reset_index(drop=True)
    if kind == "text_index":
        return g.set_axis([str(x) for x in g.index])
    if kind == "shifted":
        return g.set_axis(g.index + pd.Timedelta(days=int(r.choice([-1, 1, 365]))))
    if kind == "missing_row":
        return g.drop(index=g.index[int(r.integers(n))])
    if kind == "truncated":
        return g.iloc[: n // 2] if r.random() < 0.5 else g.iloc[-(n // 2):]
    if kind == "extra_row":
        return pd.concat([g, pd.DataFrame({"close": [5.0]}, index=[g.index[-1] + pd.Timedelta(days=1)])])
    if kind == "longer":
        return pd.concat([pd.DataFrame({"close": [5.0]}, index=[g.index[0] - pd.Timedelta(days=3)]), g])
    if kind == "one_moved":
        ix = list(g.index)
        k = int(r.integers(n))
        ix[k] = ix[k] + pd.Timedelta(seconds=1)
        return g.set_axis(pd.DatetimeIndex(ix))
    if kind == "other_tz":
        return g.set_axis(g.index.tz_localize("Europe/Athens"))
    if kind == "text":
        return g.assign(close=[str(x) for x in g["close"]])
    v = g["close"].astype(object)
    v.iloc[int(r.integers(n))] = "n/a"
    return g.assign(close=v)


def answers(ind):
    d = ind.getTiData()
    return (d.to_numpy(dtype=float).tobytes(), tuple(d.columns), d.index.asi8.tobytes(), repr(ind.getTiValue()),
            type(ind).__mro__[1].getTiSignal(ind) if type(ind).__module__ == __name__ else ind.getTiSignal())


def refuse(mon, ind, close, kw, classes, ctx):
    try:
        lib.simulate(ind, close, **kw)
    except classes:
        mon.ev("rejected")
        return
    except Exception as e:
        mon.fail("invalid simulation arguments raise another error than documented", got=type(e).__name__,
                 text=str(e)[:200], expected=[c.__name__ for c in classes], **ctx)
        return
    mon.fail("invalid simulation arguments are accepted", expected=[c.__name__ for c in classes], **ctx)


def t04(case, mon):
    name, p, mode = case["ind"], case["params"], case["mode"]
    data = gen.make(case["data"])
    n = len(data)
    words = script(case["kind"], n, case["seed"])
    good = gen.make(case["other"])[["close"]] if case["other"] else data[["close"]]
    good.index = data.index
    ctx = dict(indicator=name, params=p, mode=mode)
    limit = limit_of(case, good["close"].to_numpy())
    kw = dict(max_exposure=limit, short_exposure_factor=case["factor"])
    if mode[0] == "present":
        ix = gen.index_of(mode[3], n, case["data"]["seed"])
        data.index = good.index = ix
        g = gen.holes(good, mode[2]) if mode[2] else good
        canon = gen.fill(g)
        how = dict(mode[1])
        if how["extra"] == "none" and how["seed"] % 2:
            g = g.assign(open=1.0, volume=np.arange(n) * 1.0)
        shown = gen.present(g, how)
        given = gen.present(data, {"rows": ["asc", "desc", "shuffle"][how["seed"] % 3], "seed": how["seed"]})
        a = lib.simulate(scripted(name, given, p, words), shown, **kw)
        b = lib.simulate(scripted(name, data, p, words), canon, **kw)
        mon.ev("presentations")
        mon.check(a[0].index.equals(b[0].index) and lib.same_record(a[0], b[0]) and lib.same_stats(a[1], b[1]),
                  "another presentation of the same close prices changes the simulation",
                  difference=lib.first_diff(lib.record(a[0])[0], lib.record(b[0])[0]), **ctx)
        m = len(lib.build(name, data, p).getTiData())
        got = pd.to_numeric(a[0]["stock_value"]).to_numpy(dtype=float)[:m]
        mon.check(lib.same(got, canon["close"].to_numpy()[:m]), "stock value is not the close price of its date",
                  difference=lib.first_diff(got, canon["close"].to_numpy()[:m]), **ctx)
    else:
        ind = lib.build(name, data, p)
        before = answers(ind)
        full = lib.simulate(lib.build(name, data, p), good, **kw)
        if mode[0] == "data":
            refuse(mon, ind, bad_close(mode[1], good, case["seed"]), kw, (tex.NotValidInputDataForSimulation,), ctx)
        elif mode[0] == "arg":
            table = LIMIT_BAD if mode[1] == "max_exposure" else FACTOR_BAD
            kw2 = dict(kw)
            kw2[mode[1]] = table[mode[2]][mode[3] % len(table[mode[2]])]
            cls = tex.WrongValueForInputParameter if mode[2] == "value" else tex.WrongTypeForInputParameter
            refuse(mon, ind, good, kw2, (cls,), dict(ctx, value=repr(kw2[mode[1]])))
        else:
            kw2 = dict(max_exposure=LIMIT_BAD["value"][mode[3]], short_exposure_factor=FACTOR_BAD["value"][mode[2]])
            refuse(mon, ind, bad_close(mode[1], good, case["seed"]), kw2,
                   (tex.NotValidInputDataForSimulation, tex.WrongValueForInputParameter), ctx)
        mon.check(answers(ind) == before, "rejected simulation arguments changed the indicator", **ctx)
        again = lib.simulate(ind, good, **kw)
        mon.check(lib.same_record(again[0], full[0]) and lib.same_stats(again[1], full[1]),
                  "rejected simulation arguments changed later simulations", **ctx)
    mon.state(name, mode[0], str(mode[1:])[:80], case["limit"][0], case["factor"])


# ------------------------------------------------------------------ T05
class Stop(BaseException):
    pass


FAULTS = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError,
          "SystemExit": SystemExit, "IndexError": IndexError, "Stop": Stop, "GeneratorExit": GeneratorExit,
          "StopIteration": StopIteration, "KeyError": KeyError, "TypeError": TypeError}
NT5 = {"quick": 18, "thorough": 260}


def t05_cases(rng, tier):
    out = []
    for name in sp.NAMES:
        S = sp.SPECS[name]
        for k in range(NT5[tier]):
            p = S.sample(rng, big=20)
            n = S.need(p) + int(rng.integers(2, 45))
            out.append({"ind": name, "params": p, "data": gen.sample(rng, n, str(rng.choice(REGS))),
                        "delivery": gen.sample_delivery(rng, 0.7), "factor": 1.5,
                        "limit": ["mul", 3.7, 1, 0] if k % 3 else ["none", 0, 1, 0],
                        "faults": [[str(rng.choice(["day", "point", "point", "point", "graph", "args", "none", "close"])),
                                    str(rng.choice(list(FAULTS))), float(rng.random())]
                                   for _ in range(int(rng.integers(1, 4)))]})
    return out


SIM_FILE = os.path.join("tti", "utils", "trading_simulation.py")


class Injector:
    """Raises at the k-th traced point (function calls and lines), counted from the start of one simulated day.

    Points are those executed under the indicator's getTiSignal and inside the simulation's own
    module, on that and the following days."""

    def __init__(self, k, exc):
        self.k, self.exc, self.seen, self.where = k, exc, 0, None

    def point(self, frame):
        self.seen += 1
        if self.seen == self.k:
            self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            raise self.exc("injected")

    def inside(self, frame):
        f, d = frame, 0
        while f is not None and d < 40:
            c = f.f_code
            if c.co_name == "getTiSignal" or c.co_filename.endswith(SIM_FILE):
                return True
            if c.co_name == "getTiSimulation":
                return False
            f, d = f.f_back, d + 1
        return False

    def trace(self, frame, event, arg):
        if event != "call" or not self.inside(frame):
            return None
        self.point(frame)
        if (os.sep + "tti" + os.sep) in frame.f_code.co_filename:
            return self.lines
        return None

    def lines(self, frame, event, arg):
        if event == "line":
            self.point(frame)
        return self.lines

    def start(self):
        sys.settrace(self.trace)


def t05(case, mon):
    import matplotlib.pyplot as plt
    name, p = case["ind"], case["params"]
    frame, canon = gen.deliver(case["data"], case["delivery"])
    lim = limit_of(case, canon["close"].to_numpy())
    kw = dict(max_exposure=lim, short_exposure_factor=case["factor"])
    fresh = lib.build(name, frame, p)
    want = answers(fresh)
    full = lib.simulate(lib.build(name, frame, p), frame, **kw)
    days = len(fresh.getTiData())
    state = {"at": None, "exc": None, "inj": None}
    cls = getattr(lib.ti, name)

    def getTiSignal(self):
        if state["at"] is not None and len(self.getTiData()) - 1 == state["at"]:
            if state["inj"] is None:
                raise state["exc"]("injected")
            state["inj"].start()
        return cls.getTiSignal(self)
    ind = type(name, (cls,), {"getTiSignal": getTiSignal})(frame, **p)
    for k, (kind, exc, u) in enumerate(case["faults"]):
        e = FAULTS[exc]
        ctx = dict(indicator=name, params=p, rows=len(canon), fault=[kind, exc], number=k)
        raised = None
        try:
            if kind == "day":
                state.update(at=int(u * days), exc=e)
                ctx["day"] = state["at"]
                lib.simulate(ind, frame, **kw)
            elif kind == "point":
                inj = Injector(1 + int((u * 7919) % 1 * 700), e)
                state.update(at=int(u * days), inj=inj)
                ctx["day"] = state["at"]
                old = sys.gettrace()
                try:
                    lib.simulate(ind, frame, **kw)
                finally:
                    sys.settrace(old)
                    mon.ev("points_passed", inj.seen)
                    ctx["point"] = inj.where
                    if inj.where:
                        mon.state("point", inj.where, name)
            elif kind == "graph":
                keep = plt.subplots

                def boom(*a, **b):
                    raise e("injected")
                plt.subplots = boom
                try:
                    lib.simulate(ind, frame, **kw)
                finally:
                    plt.subplots = keep
            elif kind == "args":
                lib.simulate(ind, frame, max_exposure=-1.0)
            elif kind == "close":
                lib.simulate(ind, frame.iloc[: max(1, len(frame) - 1)], **kw)
            else:
                lib.simulate(ind, frame, **kw)
        except BaseException as x:
            if type(x).__name__ == "Timeout":
                raise
            raised = type(x).__name__
        finally:
            state.update(at=None, exc=None, inj=None)
            plt.close("all")
        mon.ev("fault:" + kind if raised else "no_fault:" + kind)
        got = answers(ind)
        for what, a, b in zip(("data", "columns", "dates", "value", "signal"), got, want):
            mon.check(a == b, "after an interrupted simulation the indicator's %s changed" % what, raised=raised, **ctx)
        if got != want:
            return
    again = lib.simulate(ind, frame, **kw)
    mon.check(lib.same_record(again[0], full[0]) and lib.same_stats(again[1], full[1]) and again[0].index.equals(full[0].index),
              "the simulation after interrupted ones differs from an undisturbed one", indicator=name, params=p,
              faults=case["faults"], difference=lib.first_diff(lib.record(again[0])[0], lib.record(full[0])[0]))
    mon.check(answers(ind) == want, "a completed simulation changed the indicator", indicator=name, params=p)
    mon.state(name, str(case["faults"])[:60])


# ------------------------------------------------------------------ T07
NT7 = {"quick": 500, "thorough": 9000}


def t07_cases(rng, tier):
    out = []
    for k in range(NT7[tier]):
        sims = []
        for _ in range(int(rng.integers(1, 4))):
            n = int(rng.integers(1, 12 if k % 4 == 0 else 90))
            regime = str(rng.choice(REGS))
            sims.append({"data": gen.sample(rng, n, regime, "int" if regime in ("lattice", "ties") else None),
                         "index": str(rng.choice(gen.INDEXES)), "kind": str(rng.choice(KINDS[:-1])),
                         "seed": int(rng.integers(1 << 30)), "factor": [1.5, 1.5, 1, 1.0, 2, 1.25, 3.75][int(rng.integers(7))],
                         "limit": [str(rng.choice(["none", "mul", "mul", "exact", "int"])),
                                   float(rng.choice([0.5, 1.0, 1.5, 2.5, 3.7, 6.0, 12.0])), int(rng.integers(1, 5)),
                                   int(rng.integers(1 << 30))],
                         "how": gen.sample_how(rng) if rng.random() < 0.5 else None,
                         "stop": float(rng.choice([0.0, 0.3, 0.5, 0.9, 1.0, 1.0, 1.0]))})
        out.append({"sims": sims, "order": int(rng.integers(1 << 30)), "peek": float(rng.choice([0.05, 0.2, 0.5]))})
    return out


def stepped(mon, got, s, m, ctx):
    """Record and statistics of a simulator after m rounds, against the ledger."""
    rec, stats = got
    close, words = s["close"], s["words"]
    if not mon.check(isinstance(rec, pd.DataFrame) and list(rec.columns) == list(lib.SIMCOLS) and isinstance(stats, dict)
                     and sorted(stats) == sorted(KEYS), "record or statistics have another shape", rounds=m, **ctx):
        return False
    if not mon.check(rec.index.equals(s["index"]), "dates of the record are not those of the data", rounds=m, **ctx):
        return False
    num, (sg, acts) = lib.record(rec)
    ok = mon.check(sg[:m] == words[:m], "recorded signals are not those given", rounds=m, got=sg[:m][:30], expected=words[:30], **ctx)
    ok &= mon.check(all(x is None for x in sg[m:] + acts[m:]) and np.isnan(num[m:]).all(),
                    "rounds which were not run are recorded", rounds=m, **ctx)
    if not ok:
        return False
    model, longs, shorts = ledger(mon, words, close, s["lim"], s["factor"], acts, m)
    for i, w in enumerate(model):
        mon.ev("days")
        want = np.array([close[i], w[1], w[2], w[3], w[4]])
        tol = 1e-7 * (1 + np.abs(want).max() + np.abs(close[:i + 1]).max())
        if not mon.check(acts[i] == w[0] and lib.same(num[i], want, tol), "a round's record differs from the ledger", day=i,
                         rounds=m, signal=sg[i], action=acts[i], got=[float(x) for x in num[i]],
                         expected=[w[0]] + [float(x) for x in want], **ctx):
            return False
    last = num[m - 1] if m else np.zeros(5)
    want = {"number_of_trading_days": m, "last_open_long_positions": longs, "last_open_short_positions": shorts}
    for w in ("buy", "sell"):
        want["number_of_%s_signals" % w] = sum(x == w for x in sg[:m])
        want["number_of_ignored_%s_signals" % w] = sum(x == w and a == "none" for x, a in zip(sg[:m], acts[:m]))
    want.update(zip(("last_stock_value", "last_exposure", "last_portfolio_value", "last_earnings", "final_balance"), last))
    for k in KEYS:
        mon.ev("statistics")
        x = float(want[k])
        tol = 0.0 if "number" in k or "open" in k else 0.005 + 1e-9 * (1 + abs(x))
        if not mon.check(abs(float(stats[k]) - x) <= tol, "a statistic is not the one of the rounds run", key=k, rounds=m,
                         got=float(stats[k]), expected=x, **ctx):
            return False
    return True


def t07(case, mon):
    from tti.utils.trading_simulation import TradingSimulation
    r = np.random.default_rng(case["order"])
    live = []
    for s in case["sims"]:
        df = gen.make(s["data"])[["close"]]
        df.index = gen.index_of(s["index"], len(df), s["data"]["seed"])
        close = df["close"].to_numpy(dtype=float).copy()
        given = gen.present(df, s["how"]) if s["how"] else df.copy()
        lim = limit_of(dict(s), close)
        x = dict(s, close=close, index=df.index, words=script(s["kind"], len(df), s["seed"]), lim=lim, given=given, shot=lib.shot(given),
                 end=int(round(s["stop"] * len(df))), at=0)
        x["sim"] = TradingSimulation(df.index, given, lim, s["factor"])
        if r.random() < 0.3:  # the simulator keeps data of its own
            given.loc[:, [c for c in given.columns if str(c).lower() == "close"]] = 1
            x["shot"] = lib.shot(given)
        live.append(x)
    while True:
        todo = [x for x in live if x["at"] < x["end"]]
        if not todo:
            break
        x = todo[int(r.integers(len(todo)))]
        for _ in range(int(r.integers(1, 6))):
            if x["at"] < x["end"]:
                x["sim"].runSimulationRound(x["at"], NAME[x["words"][x["at"]]])
                x["at"] += 1
                mon.ev("rounds")
        if r.random() < case["peek"]:
            mon.ev("read_in_between")
            ctx = dict(max_exposure=x["lim"], factor=x["factor"], simulators=len(live), final=False)
            if not stepped(mon, x["sim"].closeSimulation(), x, x["at"], ctx):
                return
    for x in live:
        mon.ev("partial" if x["end"] < len(x["close"]) else "complete")
        if not x["end"]:
            mon.ev("nothing_run")
        ctx = dict(max_exposure=x["lim"], factor=x["factor"], simulators=len(live), final=True)
        for _ in range(2):
            if not stepped(mon, x["sim"].closeSimulation(), x, x["end"], ctx):
                return
        mon.check(lib.shot(x["given"]) == x["shot"], "a simulator changed the close prices it was given", **ctx)
    mon.state(len(live), *[(x["kind"], x["data"]["regime"], x["end"], x["lim"] is None, x["factor"]) for x in live])


A = ["unique timestamps", "float64/int64 prices above zero", "an indicator whose data are shorter than its input simulates its "
     "own days only"]
RULE = ("A case is one simulation (indicator, parameters, prices, scripted or real signals, limit, short factor); every day "
        "is judged. Distinct: (indicator, parameters, signal history, regime, limit, factor, days/8).")
CHECKS = {
    "T01": Check("T01", t_cases(24, 330), t01, RULE,
                 need=("days", "closed_longs", "closed_shorts", "refused", "opened_long", "opened_short", "limit_met_exactly"),
                 assumptions=A),
    "T02": Check("T02", t_cases(24, 330), t02, RULE,
                 need=("statistics",) + tuple("positive:" + k for k in KEYS if "number" in k or "open" in k), assumptions=A),
    "T03": Check("T03", t03_cases, t03,
                 "A case is one simulation compared with fresh indicators on prefixes and with simulations of other "
                 "continuations. Distinct: (indicator, parameters, regime, continuation, rows/8).",
                 need=("days_compared_with_a_fresh_indicator", "acted_days", "days_compared_with_other_futures"),
                 assumptions=A),
    "T04": Check("T04", t04_cases, t04,
                 "A case gives one simulation invalid or differently presented arguments. Distinct: (indicator, kind of "
                 "argument, limit, factor).", need=("rejected", "presentations"), assumptions=A),
    "T05": Check("T05", t05_cases, t05,
                 "A case injects 1-3 faults into simulations of one indicator (at a day, at a traced call or line, while "
                 "drawing, by arguments) and compares all answers afterwards. Distinct: (indicator, faults) and "
                 "(source line hit, indicator).",
                 need=("fault:day", "fault:point", "fault:graph", "fault:args", "fault:close", "points_passed"),
                 assumptions=A),
    "T07": Check("T07", t07_cases, t07,
                 "A case drives 1-3 simulators round by round, interleaved, reading results in between; every row and statistic "
                 "read is judged. Distinct: (signal histories, regimes, rounds run, limits, factors).",
                 need=("rounds", "days", "statistics", "read_in_between", "partial", "complete", "nothing_run", "refused",
                       "closed_longs", "closed_shorts"), assumptions=A[:2]),
    "T06": Check("T06", t_cases(24, 330), t06, RULE, need=("days", "open_positions", "opened_under_limit", "refused"),
                 assumptions=A),
}
