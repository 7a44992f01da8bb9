"""S01-S04: the trading signal of every row, undefined data, and query histories."""
import numpy as np
import pandas as pd

from .. import gen, lib, refsig, spec as sp
from ..runner import Check

S01 = sp.FAMILY["averages"] + sp.FAMILY["bands"] + sp.FAMILY["regression"] + sp.FAMILY["range"]
S02 = sp.FAMILY["momentum"] + sp.FAMILY["volume"] + (
    "PriceOscillator", "DetrendedPriceOscillator", "ForecastOscillator", "ProjectionOscillator", "RelativeVolatilityIndex",
    "MovingAverageConvergenceDivergence", "WilliamsAccumulationDistribution")
REGS = gen.REGIMES + ("lattice",) * 5 + ("bulge", "bulge", "ties", "ties", "sine", "switch", "zigzag")
LONG = {"NegativeVolumeIndex": 255, "PositiveVolumeIndex": 255, "ChaikinOscillator": 90, "UltimateOscillator": 30,
        "WilliamsAccumulationDistribution": 30, "MassIndex": 40, "DirectionalMovementIndex": 42, "IchimokuCloud": 80,
        "TypicalPrice": 10}


def prefix(cols, k):
    return {c: v[:k] for c, v in cols.items()}


def expected(name, p, d, ti, n_ti, rows):
    """Admissible signals for each of the rows (prefix lengths)."""
    q = sp.SPECS[name].full(p)

    def observe(other, col, period):
        if len(d["close"]) < period:
            return None
        frame = pd.DataFrame({"close": d["close"]}, index=pd.date_range("2015-01-05", periods=len(d["close"])))
        return lib.build(other, frame, {"period": period}).getTiData()[col].to_numpy(dtype=float)
    x = refsig.averages(name, d, ti, q, observe)
    return {k: refsig.signals(name, prefix(d, k), prefix(ti, min(k, n_ti)), q, x) for k in rows}


def observed(ind):
    data = ind.getTiData()
    return {c: data[c].to_numpy(dtype=float) for c in data.columns}, len(data)


def scripted(name, frame, p, d, seed, warm=0):
    """An indicator whose calculation is replaced by one that reports values on the edges of its rule. What it reports is
    read back through the public interface. An indicator which keeps anything derived besides its input and its reported
    data would contradict itself when only the latter are replaced: it is not scripted."""
    return reporting(name, frame, p, lambda data: refsig.script(name, data, d, seed, warm))


def reporting(name, frame, p, change):
    """An indicator which reports `change` of what it calculates; None when it cannot be made to consistently."""
    cls = getattr(lib.ti, name)
    plain = cls(frame, **p)
    own = plain.getTiData()
    for k, v in vars(plain).items():
        if k != "_input_data" and isinstance(v, (pd.DataFrame, pd.Series, np.ndarray, list, dict)) and not _plain(v, own, frame):
            return None

    def calc(self):
        return change(cls._calculateTi(self))
    sub = type(name, (cls,), {"_calculateTi": calc, "__module__": cls.__module__})
    return sub(frame, **p)


def _plain(v, own, frame):
    """The value is the reported data, or (some columns of) the input data."""
    if isinstance(v, pd.DataFrame):
        return v.equals(own) or {str(c).lower() for c in v.columns} <= {str(c).lower() for c in frame.columns}
    return isinstance(v, dict) and not any(isinstance(x, (pd.DataFrame, pd.Series, np.ndarray)) for x in v.values())


def sample_signal_case(rng, name, k, tier):
    S = sp.SPECS[name]
    p = S.sample(rng, big=30, far=0.03)
    if name in ("TypicalPrice", "MedianPrice") and p.get("period", 200) > 60:
        p = {"period": int(rng.integers(1, 30))}
    extra = LONG.get(name, 0)
    n = max(S.need(p), extra) + int(rng.integers(2, 25 if k % 3 == 0 else 130))
    regime = str(rng.choice(REGS))
    if name == "MassIndex" and k % 2:
        regime = "bulge"
    grid = "int" if regime in ("lattice", "ties") and k % 4 else None
    return {"ind": name, "params": p, "data": gen.sample(rng, n, regime, grid),
            "delivery": gen.sample_delivery(rng, 0.75), "script": int(rng.integers(1, 1 << 30)) if k % 5 in (1, 3) else 0}


NS = {"quick": 76, "thorough": 600}


def s_cases(names):
    def cases(rng, tier):
        out = [sample_signal_case(rng, name, k, tier) for name in names for k in range(NS[tier])]
        for k in range(len(names) * NS[tier] // 2):  # longer histories, only their last rows
            c = sample_signal_case(rng, str(rng.choice(names)), k, tier)
            c["data"]["n"] += int(rng.integers(100, 700)) if k % 20 else int(rng.integers(1000, 4000))
            c["final"] = int(rng.integers(1, 1 << 30))
            out.append(c)
        return out
    return cases


def s_run(case, mon):
    name, p = case["ind"], case["params"]
    frame, canon = gen.deliver(case["data"], case["delivery"])
    d = gen.arrays(canon)
    ind = scripted(name, frame, p, d, case["script"]) if case.get("script") else None
    if ind is not None:
        mon.ev("scripted:" + name)
    else:
        ind = lib.build(name, frame, p)
    sig = ind.getTiSignal()
    ti, m = observed(ind)
    n = len(canon)
    mon.state(name, p, case["data"]["regime"], case["data"]["grid"], n // 16)
    if case.get("final"):
        want = expected(name, p, d, ti, m, [n])[n]
        mon.ev("long_histories")
        mon.ev("final:" + str(sig[0]))
        mon.check(sig in lib.SIGNALS.values() and sig[0] in want, "signal is not the one of the documented rule", indicator=name,
                  params=p, rows=n, got=repr(sig), expected=sorted(want), tail={c: [float(q) for q in v[-4:]] for c, v in ti.items()},
                  close=[float(q) for q in d.get("close", [0])[-4:]])
        return
    rec, _s = lib.simulate(ind, frame)
    got = list(rec["signal"])
    judge(mon, name, p, d, ti, m, n, sig, got)


def judge(mon, name, p, d, ti, m, n, sig, got):
    rows = [k for k in range(1, m + 1)]
    want = expected(name, p, d, ti, m, sorted(set(rows) | {n}))
    mon.check(sig in lib.SIGNALS.values(), "signal is not one of the documented values", indicator=name, got=repr(sig))
    mon.check(sig[0] in want[n], "signal is not the one of the documented rule", indicator=name, params=p, rows=n,
              got=repr(sig), expected=sorted(want[n]), tail={c: [float(q) for q in v[-4:]] for c, v in ti.items()},
              close=[float(q) for q in d.get("close", [0])[-4:]])
    mon.ev("final:" + sig[0])
    for k in rows:
        g = got[k - 1]
        mon.ev("rows")
        mon.ev("row:" + str(g))
        if g != "hold":
            mon.ev("acted:" + name)
        if len(want[k]) > 1:
            mon.ev("rows_not_decidable_in_float64")
        if g not in want[k]:
            mon.fail("signal of a day is not the one of the documented rule", indicator=name, params=p, day=k, rows=n, got=g,
                     expected=sorted(want[k]), tail={c: [float(z) for z in v[max(0, k - 4):k]] for c, v in ti.items()},
                     close=[float(z) for z in d.get("close", np.zeros(k))[max(0, k - 4):k]])
            break


# ------------------------------------------------------------------ S03
NS3 = {"quick": 60, "thorough": 700}


def s03_cases(rng, tier):
    out = []
    for name in sp.NAMES:
        S = sp.SPECS[name]
        for k in range(NS3[tier]):
            p = S.sample(rng, big=60)
            n = S.need(p) + int(rng.choice([0, 0, 1, 2, 3, 5, 9, 14, 26, 40]))
            reg = str(rng.choice(["flat", "flatmid", "flatstart", "step", "doji", "walk", "ties", "lattice", "up", "down"]))
            if k % 3 == 0:
                n += LONG.get(name, 0)
            out.append({"ind": name, "params": p, "data": gen.sample(rng, n, reg, None, str(rng.choice(["zeros", "rand", "ties"]))),
                        "warm": int(rng.integers(1, n + 1)) if k % 5 == 2 else 0,
                        "novol": bool(rng.random() < 0.1), "tail": int(rng.integers(0, 40)) if k % 4 == 1 else 0,
                        "sim": k % 2 == 0 and n < 130})
    return out


def s03(case, mon):
    name, p = case["ind"], case["params"]
    q = sp.SPECS[name].full(p)
    df = gen.make(case["data"])
    if case["novol"]:
        df["volume"] = 0.0
    if case["tail"]:  # the last rows do not move and nothing is traded
        t = min(case["tail"], len(df))
        df.iloc[-t:, :4] = float(df["close"].iloc[-t])
        df.iloc[-t:, 4] = 0.0
    ind = scripted(name, df, p, gen.arrays(df), case["data"]["seed"], case["warm"]) if case.get("warm") else None
    if ind is None:
        ind = lib.build(name, df, p)
    sig = ind.getTiSignal()
    ti, m = observed(ind)
    n = len(df)
    mon.check(isinstance(sig, tuple) and sig in lib.SIGNALS.values(), "signal is not one of the documented values",
              indicator=name, params=p, got=repr(sig))
    und = refsig.undefined(name, ti, q, m)
    mon.ev("undefined" if und else "defined")
    if und:
        mon.check(sig == ("hold", 0), "signal other than hold from undefined data", indicator=name, params=p, rows=n,
                  got=repr(sig), tail={c: [float(z) for z in v[-4:]] for c, v in ti.items()})
    if case["sim"]:
        rec, _s = lib.simulate(ind, df)
        for k, g in enumerate(list(rec["signal"])[:m], 1):
            mon.check(g in lib.SIGNALS, "signal of a day is not one of the documented values", indicator=name, got=repr(g))
            u = refsig.undefined(name, prefix(ti, k), q, k)
            mon.ev("undefined" if u else "defined")
            if u:
                mon.ev("undefined:" + name)
                if g != "hold":
                    mon.fail("signal other than hold from undefined data during a simulation", indicator=name, params=p, day=k,
                             rows=n, got=g, tail={c: [float(z) for z in v[max(0, k - 4):k]] for c, v in ti.items()})
                    break
    mon.state(name, p, case["data"]["regime"], n - sp.SPECS[name].need(p), case["novol"], case["tail"] > 0)


# ------------------------------------------------------------------ S04
QUERIES = ("data", "value", "value_at", "signal", "signal", "graph", "sim", "sim_tight", "sim_bad", "value_unknown", "other",
           "other_sim", "data")
NS4 = {"quick": 15, "thorough": 320}


def s04_cases(rng, tier):
    out = []
    for name in sp.NAMES:
        S = sp.SPECS[name]
        for k in range(NS4[tier]):
            p = S.sample(rng)
            n = sp.pick_n(rng, S.need(p), short=True)
            n = min(n, S.need(p) + 60)
            out.append({"ind": name, "params": p, "data": gen.sample(rng, n) if k % 3 else
                        gen.sample(rng, n, str(rng.choice(["lattice", "ties", "flatmid"])), "int"),
                        "ops": [str(x) for x in rng.choice(QUERIES, int(rng.integers(4, 10)))],
                        "other": str(rng.choice([name, str(rng.choice(sp.NAMES))])), "pick": int(rng.integers(1 << 30)),
                        "delivery": gen.sample_delivery(rng, 0.7)})
        for k in range(1 if tier == "quick" else 12):  # years of rows
            ops = [str(x) for x in rng.choice([x for x in QUERIES if "sim" not in x], 3)]
            out.append({"ind": name, "params": S.sample(rng), "data": gen.sample(rng, int(rng.integers(1100, 4300))),
                        "ops": ["signal", "graph"] + ops + ["data"], "other": str(rng.choice(sp.NAMES)),
                        "pick": int(rng.integers(1 << 30)), "delivery": gen.sample_delivery(rng, 0.7)})
    return out


def ask(ind, op, close, canon, pick, alone=None):
    """Comparable answer of one query (alone: told the signals of a simulation)."""
    if op == "data":
        x = ind.getTiData()
        return ("data", x.to_numpy(dtype=float).tobytes(), tuple(x.columns), x.index.asi8.tobytes(), str(x.dtypes.tolist()))
    if op == "value":
        return ("value", repr(ind.getTiValue()))
    if op == "value_at":
        return ("value_at", repr(ind.getTiValue(str(canon.index[pick % len(canon)]))))
    if op == "value_unknown":
        return ("value_unknown", repr(ind.getTiValue("1800-01-01")))
    if op == "signal":
        return ("signal", ind.getTiSignal())
    if op == "graph":
        import matplotlib.pyplot as plt
        plt.close("all")
        g = ind.getTiGraph()
        f = g.gcf()
        out = [[(ln.get_label(), np.asarray(ln.get_ydata(), dtype=float).tobytes()) for ln in ax.get_lines()]
               for ax in f.axes]
        words = [getattr(f, k)() for k in ("get_suptitle", "get_supxlabel", "get_supylabel")] + \
            [[ax.get_title(), ax.get_xlabel(), ax.get_ylabel(),
              [t.get_text() for t in ax.get_legend().get_texts()] if ax.get_legend() else None] for ax in f.axes]
        plt.close("all")
        return ("graph", repr(out), repr(words))
    if op in ("sim", "sim_tight"):
        lim = None if op == "sim" else float(2.2 * canon["close"].mean())
        rec, stats = lib.simulate(ind, close, max_exposure=lim)
        num, txt = lib.record(rec)
        if alone is not None:
            alone(txt[0])
        return (op, num.tobytes(), repr(txt), repr(sorted((k, float(v)) for k, v in stats.items())))
    if op == "sim_bad":
        try:
            lib.simulate(ind, close, short_exposure_factor=0.5)
        except Exception as e:
            return (op, type(e).__name__)
        return (op, "accepted")
    raise ValueError(op)


def s04(case, mon):
    name, p = case["ind"], case["params"]
    frame, canon = gen.deliver(case["data"], case["delivery"])
    other = lib.build(case["other"], frame, {}) if sp.SPECS[case["other"]].need({}) <= len(canon) else None
    ind = lib.build(name, frame, p)
    fresh = {}
    S = sp.SPECS[name]
    closes = canon["close"].to_numpy()
    r = np.random.default_rng(case["pick"])
    for step, op in enumerate(case["ops"]):
        pick = int(r.integers(1 << 20))
        if op in ("other", "other_sim"):
            if other is not None:
                ask(other, "signal" if op == "other" else "sim", frame, canon, pick)
            continue
        def alone(signals):
            if len(signals) != len(canon):  # reported from a later day on
                return
            days = {len(canon) - 1} if S.causal or name == "FibonacciRetracement" else set()
            if S.causal and len(canon) > S.need(p):
                same = [i for i in range(max(S.need(p), 2), len(canon)) if closes[i] == closes[i - 1]]
                days |= {int(x) for x in r.integers(S.need(p), len(canon), 2)}
                days |= {int(x) for x in r.choice(same, min(5, len(same)), replace=False)} if same else set()
            for i in sorted(days):
                want = lib.build(name, canon.iloc[:i + 1], p).getTiSignal()[0]
                mon.ev("simulated_days_alone")
                if not mon.check(signals[i] == want, "a simulation's signal of a day is not the one asked alone", day=i,
                                 indicator=name, params=p, simulated=signals[i], alone=want):
                    break
        got = ask(ind, op, frame, canon, pick, alone)
        key = op if op != "value_at" else (op, pick % len(canon))
        if key not in fresh:
            fresh[key] = ask(lib.build(name, frame, p), op, frame, canon, pick)
        mon.ev("answers")
        if not mon.check(got == fresh[key], "a query's answer depends on earlier queries", indicator=name, params=p,
                         query=op, step=step, history=case["ops"][:step + 1]):
            break
    mon.state(name, ",".join(case["ops"]), case["other"])


A = ["unique timestamps", "valid OHLC bars", "int64/float64 columns"]
RULE = ("A case is one indicator on one history; its final signal and the signal of every day (through the simulation) are "
        "compared with the reference rule applied to the indicator's own reported values and the prices. Distinct: (indicator, "
        "parameters, regime, grid, length/16).")
CHECKS = {
    "S01": Check("S01", s_cases(S01), s_run, RULE, need=("rows", "row:buy", "row:sell", "row:hold") + tuple(
        "acted:" + n for n in S01), assumptions=A),
    "S02": Check("S02", s_cases(S02), s_run, RULE, need=("rows", "row:buy", "row:sell", "row:hold") + tuple(
        "acted:" + n for n in S02), assumptions=A),
    "S03": Check("S03", s03_cases, s03,
                 "A case looks at one indicator on warm-up or degenerate data; wherever a value its rule is defined by is "
                 "missing, the signal must be hold. Distinct: (indicator, parameters, regime, rows over minimum, volume).",
                 need=("undefined", "defined"), assumptions=A),
    "S04": Check("S04", s04_cases, s04,
                 "A case is a random history of queries on one indicator, another one in between; every answer is compared "
                 "with the answer of a fresh indicator. Distinct: (indicator, history, other indicator).",
                 need=("answers",), assumptions=A + ["callers do not modify returned frames"]),
}
