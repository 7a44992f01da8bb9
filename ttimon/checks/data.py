"""D01-D08: the contract about input data, parameters and results."""
import datetime as dt
import warnings

import numpy as np
import pandas as pd

from .. import gen, lib, ref, refsig, spec as sp
from . import formula, values as val
from ..runner import Check

import tti.utils as tu
from tti.utils import exceptions as tex

MULT = {"quick": 1.0, "thorough": 12.0}


def per_indicator(count, fields):
    """count cases per indicator; fields(rng, name, S, k) -> extra dict."""
    def cases(rng, tier):
        out = []
        for name in sp.NAMES:
            S = sp.SPECS[name]
            for k in range(max(1, int(count * MULT[tier]))):
                c = {"ind": name}
                c.update(fields(rng, name, S, k))
                out.append(c)
            for k in range(1 if tier == "quick" else 8):  # years of rows
                c = {"ind": name}
                c.update(fields(rng, name, S, 2 + 5 * k))
                c["data"]["n"] = int(rng.integers(1100, 4300))
                c.update({"sim": False} if "sim" in c else {})
                if "ops" in c:
                    c["ops"] = [x for x in c["ops"] if "sim" not in x] + ["data", "signal"]
                out.append(c)
        return out
    return cases


def basic(rng, name, S, k, short=True, regime=None, grid=None, vol=None):
    p = S.sample(rng, far=0.04)
    return {"params": p, "data": gen.sample(rng, sp.pick_n(rng, S.need(p), short=short), regime, grid, vol)}


# ------------------------------------------------------------------ D01
OPS = ("data", "value", "signal", "graph", "sim", "sim_same", "bad_sim", "new", "bad_param", "short", "fill", "data",
       "signal", "value", "nofill", "missing_col")


def d01_fields(rng, name, S, k):
    c = basic(rng, name, S, k)
    c["delivery"] = {"index": str(rng.choice(gen.INDEXES)), "how": gen.sample_how(rng),
                     "holes": int(rng.integers(1, 1 << 30)) if rng.random() < 0.5 else 0}
    if k % 4 == 0:  # exactly what the indicator needs, sorted, lower case: nothing to preprocess
        c["delivery"] = None
        c["exact"] = True
    c["ops"] = [str(x) for x in rng.choice(OPS, int(rng.integers(3, 7)))]
    c["mutate"] = str(rng.choice(["scale", "rename", "index", "nan", "drop", "setitem", "values"]))
    c["again"] = int(rng.integers(1 << 30))
    return c


def mutate(df, how):
    num = [c for c in df.columns if df[c].dtype.kind in "if"]
    if how == "scale":
        for c in num:
            df[c] *= 3
    elif how == "values":
        for c in num:
            try:
                df[c].to_numpy()[:] = 7  # writes through where the frame shares its buffer
            except ValueError:
                df.loc[:, c] = 7
    elif how == "rename":
        df.columns = ["c%d" % i for i in range(df.shape[1])]
    elif how == "index":
        df.index = df.index + pd.Timedelta(days=400)
    elif how == "nan":
        df.iloc[: len(df) // 2, :] = np.nan
    elif how == "drop":
        df.drop(index=df.index[: max(1, len(df) // 3)], inplace=True)
    else:
        for c in num:
            df.iloc[-1, df.columns.get_loc(c)] = 1.5


def d01(case, mon):
    name, p = case["ind"], case["params"]
    S = sp.SPECS[name]
    frame, canon = gen.deliver(case["data"], case["delivery"], S.req if case.get("exact") else None)
    frame = frame.copy()
    frame.attrs["owner"] = "caller"
    close = frame if not case.get("exact") else gen.make(case["data"])[["close"]]
    frames = {"input": frame, "close": close}
    before = {k: lib.shot(f) for k, f in frames.items()}

    def intact(after):
        for k, f in frames.items():
            mon.ev("snapshots_compared")
            mon.check(lib.shot(f) == before[k], "the caller's %s frame was modified" % k, indicator=name, params=p,
                      after=after)

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ind = lib.build(name, frame, p)
        intact("construction")
        for op in case["ops"]:
            try:
                if op == "data":
                    ind.getTiData()
                elif op == "value":
                    ind.getTiValue()
                    ind.getTiValue(str(canon.index[len(canon) // 2]))
                elif op == "signal":
                    ind.getTiSignal()
                elif op == "graph":
                    ind.getTiGraph()
                elif op in ("sim", "sim_same"):
                    lib.simulate(ind, close, max_exposure=None if op == "sim" else 500.0)
                elif op == "bad_sim":
                    lib.simulate(ind, close, max_exposure=-1)
                elif op == "new":
                    lib.build(name, frame, {})
                elif op == "nofill":
                    lib.build(name, frame, p, fill_missing_values=False)
                elif op == "bad_param":
                    lib.build(name, frame, {k: "wrong" for k in list(S.defaults)[:1]})
                elif op == "short":
                    lib.build(name, frame.iloc[:0], p)
                elif op == "missing_col":
                    g = frame.drop(columns=[c for c in frame.columns if str(c).lower() == S.req[0]])
                    h = lib.shot(g)
                    try:
                        lib.build(name, g, p)
                    finally:
                        mon.check(lib.shot(g) == h, "the caller's rejected frame was modified", indicator=name)
                elif op == "fill":
                    mutate(tu.fillMissingValues(frame), case["mutate"])  # the result is the caller's to change
            except Exception as e:  # failing calls are part of the history; totality is D07's subject
                mon.ev("failing_calls")
                if op in ("data", "value", "signal", "graph", "sim", "sim_same") and op != "fill":
                    raise
            intact(op)
        # a result is a snapshot: what happens to the caller's frame later does not reach it
        a = ind.getTiData().copy(deep=True)
        sig = ind.getTiSignal()
        work = frame.copy(deep=True)
        ind2 = lib.build(name, work, p)
        rec = None
        if case["again"] % 3 == 0:
            cw = close.copy(deep=True)
            rec, stats = lib.simulate(ind2, cw)
            keep = rec.copy(deep=True)
            mutate(cw, case["mutate"])
            mon.check(lib.same_record(rec, keep), "simulation record follows the caller's close frame", indicator=name)
        mutate(work, case["mutate"])
        b = ind2.getTiData()
        mon.check(lib.same(a.to_numpy(float), b.to_numpy(float)) and a.index.equals(b.index),
                  "indicator data follows later changes of the caller's frame", indicator=name, params=p,
                  mutation=case["mutate"])
        mon.check(ind2.getTiSignal() == sig, "signal follows later changes of the caller's frame", indicator=name,
                  params=p, mutation=case["mutate"])
        if rec is not None:
            r3, _ = lib.simulate(ind2, close)
            mon.check(lib.same_record(rec, r3), "simulation follows later changes of the caller's frame", indicator=name,
                      mutation=case["mutate"])
        mon.ev("isolation_checks")
    how = (case["delivery"] or {}).get("how", {})
    mon.state(name, how.get("rows"), how.get("case"), how.get("extra"), ",".join(case["ops"]), case["mutate"])


# ------------------------------------------------------------------ twins
def answers(name, frame, p, sim=None, close=None):
    ind = lib.build(name, frame, p)
    out = {"data": ind.getTiData(), "signal": ind.getTiSignal(), "value": ind.getTiValue()}
    if sim is not None:
        out["rec"], out["stats"] = lib.simulate(ind, close, **sim)
    return out


def compare(mon, name, p, a, b, what, tol=0.0, rel=0.0, sim=False, index=True, **ctx):
    x, y = a["data"].to_numpy(dtype=float), b["data"].to_numpy(dtype=float)
    mon.ev("values_compared", x.size)
    t = tol + rel * np.abs(np.nan_to_num(x, posinf=0, neginf=0))
    if not mon.check(list(a["data"].columns) == list(b["data"].columns) and lib.same(x, y, t),
                     "indicator data differ: " + what, indicator=name, params=p, diff=lib.first_diff(x, y, t), **ctx):
        return
    if index:
        mon.check(a["data"].index.equals(b["data"].index), "dates differ: " + what, indicator=name, params=p, **ctx)
    if lib.same(x, y):
        mon.ev("signals_compared")
        mon.check(a["signal"] == b["signal"], "signals differ: " + what, indicator=name, params=p,
                  first=a["signal"], second=b["signal"], **ctx)
        mon.check(lib.same(a["value"], b["value"]), "latest values differ: " + what, indicator=name, params=p, **ctx)
        if sim:
            mon.ev("simulations_compared")
            mon.check(lib.same_record(a["rec"], b["rec"]), "simulation records differ: " + what, indicator=name,
                      params=p, **ctx)
            mon.check(lib.same_stats(a["stats"], b["stats"]), "simulation statistics differ: " + what, indicator=name,
                      params=p, **ctx)


# ------------------------------------------------------------------ D02
def d02_fields(rng, name, S, k):
    mode = ["all", "ints", "rows", "cols", "case", "extra", "all", "ints"][k % 8]
    c = basic(rng, name, S, k, grid="int" if mode == "ints" else "dyadic" if mode in ("all", "cols") else None,
              regime=None, vol=str(rng.choice(["rand", "ties", "zeros", "const"])) if mode in ("ints", "all") else None)
    if mode == "ints" and c["data"]["regime"] == "penny":
        c["data"]["regime"] = "walk"
    how = gen.sample_how(rng)
    if mode not in ("all", "ints"):
        how = {mode: how[mode] if how[mode] not in ("asc", "same", "lower", "none") else
               {"rows": "shuffle", "cols": "reverse", "case": "upper", "extra": "text"}[mode], "seed": how["seed"]}
    if mode == "ints":
        how["ints"] = "all" if rng.random() < 0.5 else "some"
    elif mode == "all":
        how["ints"] = ""
    c.update(how=how, mode=mode, sim=k % 4 == 0, only=bool(rng.random() < 0.5),
             filling=[None, "off", None, "gaps", "off gaps"][k % 5], holes=int(rng.integers(1 << 30)))
    return c


def d02(case, mon):
    name, p = case["ind"], case["params"]
    S = sp.SPECS[name]
    df = gen.make(case["data"])
    filling = case.get("filling") or ""
    if "gaps" in filling:
        df = few_holes(df, case["holes"], False)
        mon.ev("histories_with_gaps")
    if "off" in filling:
        p = dict(p, fill_missing_values=False)
        mon.ev("histories_without_filling")
    base = df[[c for c in df.columns if c in S.req]] if case["only"] else df
    shown = gen.present(base, case["how"])
    close = df[["close"]]
    sim = {"max_exposure": float(4 * df["close"].mean())} if case["sim"] else None
    a = answers(name, base.copy(), p, sim, close)
    b = answers(name, shown, p, sim, gen.present(df, case["how"]) if case["sim"] else None)
    rel = 1e-11 if case["mode"] == "ints" else 0.0
    tol = 1.001 * 10.0 ** -S.digits if case["mode"] == "ints" else 0.0
    if case["mode"] == "ints" and a["data"].dtypes.iloc[0].kind == "i":
        tol = 1.0
    compare(mon, name, p, a, b, "same history presented differently", tol=tol, rel=rel, sim=case["sim"], how=case["how"])
    mon.state(name, case["mode"], case["how"].get("rows"), case["how"].get("cols"), case["how"].get("case"),
              case["how"].get("extra"), case["how"].get("ints"), filling, case["params"])


# ------------------------------------------------------------------ D03
def d03_fields(rng, name, S, k):
    c = basic(rng, name, S, k)
    c.update(index=gen.INDEXES[2 + k % (len(gen.INDEXES) - 2)], sim=k % 4 == 1,
             rows=str(rng.choice(["asc", "desc", "shuffle"])))
    return c


def d03(case, mon):
    name, p = case["ind"], case["params"]
    df = gen.make(case["data"])
    g = df.copy()
    g.index = gen.index_of(case["index"], len(df), case["data"]["seed"])
    shown = gen.present(g, {"rows": case["rows"], "seed": case["data"]["seed"]})
    sim = {"short_exposure_factor": 1.25} if case["sim"] else None
    a = answers(name, df, p, sim, df[["close"]])
    b = answers(name, shown, p, sim, shown)
    compare(mon, name, p, a, b, "dates relabelled", sim=case["sim"], index=False, labels=case["index"])
    lib.structure(mon, name, p, a["data"], df.index)
    lib.structure(mon, name, p, b["data"], g.index)
    if case["sim"]:
        mon.check(b["rec"].index.equals(g.index), "simulation record is not on the input's dates", indicator=name,
                  labels=case["index"])
    mon.state(name, case["index"], case["rows"], case["sim"], p)


# ------------------------------------------------------------------ D04
def d04_fields(rng, name, S, k):
    c = basic(rng, name, S, k)
    kinds = [None, "lead", "trail", "runs", "dense", "most", "single"]
    c.update(kind=kinds[k % 7], holes=int(rng.integers(1 << 30)), sim=k % 3 == 0,
             rows=str(rng.choice(["asc", "desc", "shuffle"])), index=str(rng.choice(gen.INDEXES)),
             explicit=bool(rng.random() < 0.3))
    return c


def d04(case, mon):
    name, p = case["ind"], case["params"]
    df = gen.make(case["data"])
    df.index = gen.index_of(case["index"], len(df), case["holes"])
    gappy = gen.holes(df, case["holes"], case["kind"])
    filled = gen.fill(gappy)
    shown = gen.present(gappy, {"rows": case["rows"], "seed": case["holes"]})
    sim = {} if case["sim"] else None
    kw = dict(p)
    if case["explicit"]:
        kw["fill_missing_values"] = True
    a = answers(name, filled, p, sim, filled[["close"]])
    b = answers(name, shown, kw, sim, shown[["close"]])
    compare(mon, name, p, a, b, "data with gaps vs filled data", sim=case["sim"], kind=case["kind"], rows=case["rows"])
    mon.ev("gaps", int(gappy.isna().to_numpy().sum()))
    # the public function
    extra = shown.copy()
    extra["note"] = np.where(np.arange(len(extra)) % 3 == 0, None, "n")
    extra = extra if case["holes"] % 2 else shown
    pic = lib.shot(extra)
    out = tu.fillMissingValues(extra)
    mon.check(lib.shot(extra) == pic, "fill function modified its argument")
    mon.check(out.index.equals(filled.index), "fill function: rows not in date order", rows=case["rows"])
    mon.check(lib.same(out[list(filled.columns)].to_numpy(dtype=float), filled.to_numpy(dtype=float)),
              "fill function: wrong fill", diff=lib.first_diff(out[list(filled.columns)].to_numpy(dtype=float),
                                                              filled.to_numpy(dtype=float)), kind=case["kind"])
    mon.check(list(out.columns) == list(extra.columns), "fill function changed the columns")
    if "note" in extra.columns and extra["note"].notna().any():
        mon.check(out["note"].isna().sum() == 0, "fill function left gaps in a text column")
    mon.ev("fills_compared")
    mon.state(name, case["kind"], case["rows"], case["index"], case["sim"], p)


# ------------------------------------------------------------------ D05
def malformed(kind, df, req, k):
    """(object, accepted error types)"""
    WT, TE, VE = tex.WrongTypeForInputParameter, TypeError, ValueError
    col = req[k % len(req)]
    n = len(df)
    if kind == "notframe":
        return [None, [1, 2], {"close": [1]}, df.iloc[:, 0], df.to_numpy(), "close", 3.5, df.index][k % 8], WT
    if kind == "index":
        g = df.copy()
        g.index = [pd.RangeIndex(n), pd.Index([str(x) for x in df.index]), df.index.to_period("D"),
                   pd.Index(list(df.index.date), dtype=object), pd.timedelta_range("1D", periods=n),
                   pd.Index(np.arange(n) * 1.0)][k % 6]
        return g, TE
    if kind == "empty":
        return [df.iloc[:0], df[[]], df.iloc[:0].astype("int64")][k % 3], VE
    if kind == "missing":
        g = df.drop(columns=[col])
        if k % 2:
            g[[" " + col, col + "s", "xx_" + col][k % 3]] = df[col]
        return g, VE
    g = df.copy()
    g[col] = [lambda: [str(x) for x in df[col]], lambda: pd.Series(list(df[col]), index=df.index, dtype=object),
              lambda: df.index, lambda: pd.Categorical([str(x) for x in df[col]]),
              lambda: ["n/a"] + list(df[col])[1:], lambda: pd.Series(pd.timedelta_range("1D", periods=n), index=df.index),
              lambda: [None] * n][k % 7]()
    return g, VE


KINDS5 = ("notframe", "index", "empty", "missing", "nonnumeric")


def d05_cases(rng, tier):
    out = []
    for name in sp.NAMES:
        S = sp.SPECS[name]
        for kind in KINDS5:
            for k in range({"notframe": 8, "index": 6, "empty": 3, "missing": 4 * len(S.req),
                            "nonnumeric": 7 * len(S.req)}[kind] * (1 if tier == "quick" else 4)):
                c = {"ind": name, "kind": kind, "k": k}
                c.update(basic(rng, name, S, k))
                c["fill"] = bool(rng.random() < 0.5)
                c["present"] = gen.sample_how(rng) if rng.random() < 0.5 else {}
                c["only"] = bool(rng.random() < 0.5)
                out.append(c)
        for kind in KINDS5:
            for k in range({"notframe": 8, "index": 6, "empty": 3, "missing": 4, "nonnumeric": 7}[kind]):
                if tier == "quick" and rng.random() < 0.5:
                    continue
                c = {"ind": name, "kind": kind, "k": k, "sim": True, "fill": True, "only": bool(rng.random() < 0.5)}
                c.update(basic(rng, name, S, k))
                c["present"] = {}
                out.append(c)
        for k in range(6):
            c = {"ind": name, "kind": "good", "k": k}
            c.update(basic(rng, name, S, k))
            c.update(fill=True, only=True, present=gen.sample_how(rng))
            c["present"]["extra"] = "none"
            out.append(c)
    return out


def d05(case, mon):
    name, p = case["ind"], case["params"]
    S = sp.SPECS[name]
    df = gen.make(case["data"])
    if case["only"]:
        df = lib.needed(name, df)
    if case["kind"] == "good":
        ind = lib.build(name, gen.present(df, case["present"]), p)
        mon.check(len(ind.getTiData()) > 0 or name == "DetrendedPriceOscillator",
                  "exactly the required columns were not accepted", indicator=name)
        mon.ev("accepted")
        mon.state(name, "good", tuple(case["present"].values()))
        return
    if case.get("sim"):
        ind = lib.build(name, df, p)
        before = lib.shot(ind.getTiData()), ind.getTiSignal()
        full = gen.make(case["data"])
        obj = malformed(case["kind"], full[["close"]] if case["only"] else full, ["close"], case["k"])[0]
        pic = lib.shot(obj) if isinstance(obj, (pd.DataFrame, pd.Series)) else repr(obj)
        try:
            ind.getTiSimulation(obj)
            mon.fail("malformed close prices accepted", indicator=name, kind=case["kind"], variant=case["k"])
        except tex.NotValidInputDataForSimulation:
            mon.ev("simulation rejected")
        except Exception as e:
            mon.fail("malformed close prices rejected with another error", indicator=name, kind=case["kind"],
                     variant=case["k"], got="%s: %s" % (type(e).__name__, str(e)[:150]))
        after = lib.shot(obj) if isinstance(obj, (pd.DataFrame, pd.Series)) else repr(obj)
        mon.check(after == pic, "rejected close prices were modified", indicator=name, kind=case["kind"])
        mon.check(before == (lib.shot(ind.getTiData()), ind.getTiSignal()),
                  "rejected close prices changed the indicator", indicator=name, kind=case["kind"])
        mon.state(name, "sim", case["kind"], case["k"])
        return
    obj, err = malformed(case["kind"], df, S.req, case["k"])
    if case["present"] and case["kind"] in ("missing", "nonnumeric"):
        how = {q: v for q, v in case["present"].items() if q in ("case", "rows", "cols", "seed")}
        obj = gen.present(obj, how) if isinstance(obj, pd.DataFrame) else obj
    pic = lib.shot(obj) if isinstance(obj, (pd.DataFrame, pd.Series)) else repr(obj)
    try:
        lib.build(name, obj, p, **({} if case["fill"] else {"fill_missing_values": False}))
        mon.fail("malformed input accepted", indicator=name, kind=case["kind"], variant=case["k"])
    except err as e:
        mon.ev("rejected")
        mon.check(type(e) is err, "wrong error type", indicator=name, kind=case["kind"], got=type(e).__name__,
                  expected=err.__name__)
        if case["kind"] == "missing" and obj.shape[1]:
            mon.check(S.req[case["k"] % len(S.req)] in str(e), "error does not name the missing column", indicator=name,
                      message=str(e)[:200])
    except Exception as e:
        mon.fail("malformed input rejected with another error", indicator=name, kind=case["kind"], variant=case["k"],
                 got="%s: %s" % (type(e).__name__, str(e)[:150]), expected=err.__name__)
    after = lib.shot(obj) if isinstance(obj, (pd.DataFrame, pd.Series)) else repr(obj)
    mon.check(after == pic, "rejected input was modified", indicator=name, kind=case["kind"])
    mon.state(name, case["kind"], case["k"] % 8, case["only"])


# ------------------------------------------------------------------ D06
BADTYPES = (5.0, "5", None, [5], (5,), {"a": 1}, 7.5, np.float64(3.0), b"5")


def param_specs(name):
    """name -> (kind, detail) of each parameter."""
    S = sp.SPECS[name]
    out = {k: ("int", lo) for k, lo in S.ints}
    for k in S.enums:
        out[k] = ("enum", S.enums[k])
    if name == "BollingerBands":
        out["std_number"] = ("posnum", None)
    if name == "Envelopes":
        out["shift"] = ("frac", None)
    if name == "Performance":
        out["target"] = ("target", None)
    out["fill_missing_values"] = ("bool", None)
    return out


def ok_ints(lo):
    return sorted({lo, lo + 1, lo + 2, 7, 14, 25, 33, 50, 90, 130, 200, 256, 300})


def d06_cases(rng, tier):
    out = []
    reps = 3 if tier == "quick" else 8
    WT, WV = "WrongTypeForInputParameter", "WrongValueForInputParameter"
    for name in sp.NAMES:
        S = sp.SPECS[name]
        for par, (kind, det) in param_specs(name).items():
            vals = []
            if kind == "int":
                lo = det
                vals += [(v, WT) for v in BADTYPES]
                vals += [(v, WV) for v in (0, -1, -2, -14, -10 ** 6)]
                if lo == 2:
                    vals.append((1, WV if name not in ("PriceOscillator", "VolumeOscillator") else None))
                vals += [(v, "ok") for v in ok_ints(lo)]
            elif kind == "enum":
                if isinstance(det[0], str):
                    vals += [(v, WV) for v in ("", "x", det[0] + " ", det[0].swapcase(), det[0][:-1], det[-1] + "s")]
                    vals += [(v, WT) for v in (1, None, 2.5, [det[0]], (det[0],), b"simple")]
                else:
                    vals += [(v, WV) for v in (2, 0, -1, 4, 5, -3, 13, 100)]
                    vals += [(v, WT) for v in (1.0, 3.0, "1", None, [1])]
                vals += [(v, "ok") for v in det]
            elif kind == "posnum":
                vals += [(v, WV) for v in (0, -1, 0.0, -0.5, -1e9)] + [(v, WT) for v in ("2", None, [2], (2,), 1j)]
                vals += [(v, "ok") for v in (1, 2, 0.001, 2.5, 100)]
            elif kind == "frac":
                vals += [(v, WV) for v in (0.0, 1.0, -0.1, 1.5, 100.0)] + [(v, WT) for v in ("0.1", None, [0.1], 1, 0, 2)]
                vals += [(v, "ok") for v in (0.1, 0.999, 0.001, 0.5)]
            elif kind == "target":
                vals += [(v, WT) for v in ("0.1", None, [0.1], (0.05,))]
                vals += [({"mode": "LONG", "target": v}, WV) for v in (-0.05, -1, -1e-9)]
                vals += [({"mode": "SHORT", "target": v}, WV) for v in (0.05, 1, 1e-9)]
                vals += [({"mode": "LONG", "target": v}, "ok") for v in (0, 0.0, 0.05, 1, 3)]
                vals += [({"mode": "SHORT", "target": v}, "ok") for v in (0, 0.0, -0.05, -1, -0.5)]
            else:
                vals += [(v, WT) for v in (1, 0, None, "True", 1.0, [True], "yes")]
                vals += [(v, "ok") for v in (True, False)]
            for r in range(reps):
                for i, (v, want) in enumerate(vals):
                    if want is not None:
                        out.append({"ind": name, "par": par, "kind": kind, "i": i, "want": want, "others": S.sample(rng),
                                    "data": gen.sample(rng, 330, regime="walk"), "tiny": bool(rng.random() < 0.25)})
        if name in ("PriceOscillator", "VolumeOscillator"):
            a, b = ("long_ma", "short_ma") if name == "PriceOscillator" else ("long_period", "short_period")
            for lo, sh in ((5, 5), (5, 6), (1, 1), (10, 30), (2, 3), (30, 31), (7, 7), (100, 200)):
                out.append({"ind": name, "par": a, "kind": "rel", "set": {a: lo, b: sh}, "want": WV, "others": {},
                            "data": gen.sample(rng, 330, regime="walk"), "tiny": False})
            for lo, sh in ((2, 1), (6, 5), (30, 29), (100, 1)):
                out.append({"ind": name, "par": a, "kind": "rel", "set": {a: lo, b: sh}, "want": "ok", "others": {},
                            "data": gen.sample(rng, 330, regime="walk"), "tiny": False})
    # documented combination: a one-row regression does not exist
    for r in range(reps * 3):
        out.append({"ind": "MovingAverage", "par": "period", "kind": "rel", "set": {"period": 1, "ma_type": "time_series"},
                    "want": WV, "others": {}, "data": gen.sample(rng, 330, regime="walk"), "tiny": False})
    for c in out:
        c["extra"] = int(rng.integers(1 << 30))
    return out


def d06_value(case):
    """The parameter values are rebuilt here (not everything is JSON)."""
    name, par = case["ind"], case["par"]
    if case["kind"] == "rel":
        return dict(case["set"])
    kind, det = param_specs(name)[par]
    vals = []
    if kind == "int":
        vals = list(BADTYPES) + [0, -1, -2, -14, -10 ** 6] + ([1] if det == 2 else []) + \
            ok_ints(det)
    elif kind == "enum":
        if isinstance(det[0], str):
            vals = ["", "x", det[0] + " ", det[0].swapcase(), det[0][:-1], det[-1] + "s", 1, None, 2.5, [det[0]],
                    (det[0],), b"simple"]
        else:
            vals = [2, 0, -1, 4, 5, -3, 13, 100, 1.0, 3.0, "1", None, [1]]
        vals = vals + list(det)
    elif kind == "posnum":
        vals = [0, -1, 0.0, -0.5, -1e9, "2", None, [2], (2,), 1j, 1, 2, 0.001, 2.5, 100]
    elif kind == "frac":
        vals = [0.0, 1.0, -0.1, 1.5, 100.0, "0.1", None, [0.1], 1, 0, 2, 0.1, 0.999, 0.001, 0.5]
    elif kind == "target":
        vals = ["0.1", None, [0.1], (0.05,)]
        vals += [{"mode": "LONG", "target": v} for v in (-0.05, -1, -1e-9)]
        vals += [{"mode": "SHORT", "target": v} for v in (0.05, 1, 1e-9)]
        vals += [{"mode": "LONG", "target": v} for v in (0, 0.0, 0.05, 1, 3)]
        vals += [{"mode": "SHORT", "target": v} for v in (0, 0.0, -0.05, -1, -0.5)]
    else:
        vals = [1, 0, None, "True", 1.0, [True], "yes", True, False]
    v = vals[case["i"]]
    return v if kind == "target" and isinstance(v, dict) else {par: v}


def d06(case, mon):
    name, par, want = case["ind"], case["par"], case["want"]
    val = d06_value(case)
    kw = {k: v for k, v in case["others"].items() if k not in val}
    if name == "MovingAverage" and kw.get("ma_type") == "time_series" and val.get("period") == 1 and want == "ok":
        kw.pop("ma_type")
    if name in ("PriceOscillator", "VolumeOscillator") and case["kind"] == "int" and want == "ok":
        a, b = ("long_ma", "short_ma") if name == "PriceOscillator" else ("long_period", "short_period")
        kw = {b: 1} if par == a else {a: 400}
    if name == "Performance" and par == "mode":
        kw = {"target": 0}
    if name == "Performance" and case["kind"] == "target" and "mode" not in val:
        kw.pop("target", None)
    if name == "MovingAverage" and par == "ma_type" and want != "ok":
        kw["period"] = max(2, kw.get("period", 2))
    if name == "MovingAverage" and par == "ma_type" and want == "ok":
        kw["period"] = max(2, kw.get("period", 20))
    need = sp.SPECS[name].need({k: v for k, v in {**kw, **val}.items() if k in sp.SPECS[name].defaults}) \
        if want == "ok" else 0
    df = gen.make(dict(case["data"], n=max(case["data"]["n"], need + 5)))
    if case["tiny"] and want != "ok":
        df = df.iloc[-1:]  # rejected whatever the data: too short data must not become the reason
    kw.update(val)
    shown = {k: repr(v) for k, v in kw.items()}
    try:
        ind = lib.build(name, df, kw)
    except (tex.WrongTypeForInputParameter, tex.WrongValueForInputParameter) as e:
        mon.ev("rejected")
        if mon.check(want != "ok", "documented parameter value rejected", indicator=name, params=shown,
                     error="%s: %s" % (type(e).__name__, str(e)[:150])):
            mon.check(type(e).__name__ == want, "wrong error type for a parameter", indicator=name, params=shown,
                      got=type(e).__name__, expected=want)
            if case["kind"] != "rel":
                mon.check(par in str(e), "error does not name the parameter", indicator=name, params=shown,
                          message=str(e)[:200])
    except Exception as e:
        mon.fail("parameter error of another kind", indicator=name, params=shown, got="%s: %s" % (
            type(e).__name__, str(e)[:150]), expected=want)
    else:
        mon.ev("accepted")
        if mon.check(want == "ok", "unsupported parameter value accepted", indicator=name, params=shown, expected=want):
            ind.getTiSignal()
            own = {k: v for k, v in kw.items() if k in sp.SPECS[name].defaults}
            obs = ind.getTiData()
            if lib.structure(mon, name, own, obs, df.index):
                formula.judge(mon, name, own, obs, gen.arrays(df), "a supported parameter value is not used as given")
                mon.ev("values_of_accepted_parameters")
    mon.state(name, shown)


# ------------------------------------------------------------------ D07
def d07_fields(rng, name, S, k):
    p = S.sample(rng, big=60)
    need = S.need(p)
    mode = ["exact", "below", "hostile", "exact", "hostile", "hostile", "below1", "hostile"][k % 8]
    reg = str(rng.choice(["flat", "flatmid", "up", "down", "zigzag", "flatstart", "step", "doji", "penny", "huge",
                          "ties"])) if mode == "hostile" else None
    vol = str(rng.choice(["zeros", "const", "ties", "rand"])) if mode == "hostile" else None
    n = {"exact": need, "below": int(rng.integers(1, need)) if need > 1 else 1, "below1": max(1, need - 1),
         "hostile": need + int(rng.choice([0, 1, 2, 5, 20, 70, 300]))}[mode]
    return {"params": p, "data": gen.sample(rng, n, reg, None, vol), "mode": mode, "need": need,
            "zerovol": bool(mode == "hostile" and rng.random() < 0.15), "sim": k % 2 == 0, "graph": k % 12 == 0}


def d07(case, mon):
    name, p, need = case["ind"], case["params"], case["need"]
    df = gen.make(case["data"])
    if case["zerovol"]:
        df["volume"] = 0.0
    n = len(df)
    try:
        ind = lib.build(name, df, p)
    except tex.NotEnoughInputData as e:
        mon.ev("refused_for_length")
        if mon.check(n < need, "enough rows refused", indicator=name, params=p, rows=n, minimum=need, error=str(e)[:150]):
            nums = [int(x) for x in __import__("re").findall(r"\((\d+)\)", str(e))]
            mon.check(n in nums, "error does not state the available number of rows", indicator=name, params=p,
                      message=str(e)[:200], rows=n)
        mon.state(name, "refused", n, need)
        return
    except Exception as e:
        mon.fail("construction failed", indicator=name, params=p, rows=n, minimum=need,
                 got="%s: %s" % (type(e).__name__, str(e)[:200]), regime=case["data"])
        return
    if not mon.check(n >= need, "too few rows accepted", indicator=name, params=p, rows=n, minimum=need):
        return
    mon.ev("constructed")

    def call(what, f):
        try:
            r = f()
            mon.ev("calls_completed")
            return r
        except Exception as e:
            mon.fail("%s failed" % what, indicator=name, params=p, rows=n, data=case["data"],
                     got="%s: %s" % (type(e).__name__, str(e)[:200]))

    call("reading data", ind.getTiData)
    call("reading the latest value", ind.getTiValue)
    call("reading a value", lambda: ind.getTiValue(str(df.index[0])))
    s = call("signal", ind.getTiSignal)
    mon.check(s in lib.SIGNALS.values(), "signal is not one of the documented values", indicator=name, got=s)
    if case["sim"]:
        r = call("simulation", lambda: lib.simulate(ind, df[["close"]]))
        if r:
            mon.check(len(r[0]) == n, "simulation does not cover the period", indicator=name, rows=len(r[0]), expected=n)
    if case["graph"]:
        call("graph", ind.getTiGraph)
    mon.state(name, case["mode"], case["data"]["regime"], case["data"]["vol"], n - need, p)


# ------------------------------------------------------------------ D08
def d08_fields(rng, name, S, k):
    c = basic(rng, name, S, k, short=False)
    c.update(index=str(rng.choice(gen.INDEXES)), look=int(rng.integers(1 << 30)),
             rows=str(rng.choice(["asc", "desc", "shuffle"])))
    return c


def d08(case, mon):
    name, p = case["ind"], case["params"]
    S = sp.SPECS[name]
    df = gen.make(case["data"])
    df.index = gen.index_of(case["index"], len(df), case["look"])
    ind = lib.build(name, gen.present(df, {"rows": case["rows"], "seed": case["look"]}), p)
    data = ind.getTiData()
    if not lib.structure(mon, name, p, data, df.index):
        return
    for c in data.columns:
        mon.check(data[c].dtype.kind in "fi", "column is not numeric", indicator=name, column=c,
                  dtype=str(data[c].dtype))
    v = data.to_numpy(dtype=float)
    d = gen.arrays(df)
    with np.errstate(all="ignore"):
        want = ref.REF[name](d, **p)
        fin = np.isfinite(v) & (np.abs(v) < 1e9)
        if name not in ("OnBalanceVolume", "AccumulationDistributionLine"):
            off = fin & (np.abs(v - np.round(v, S.digits)) > 1e-12 * np.maximum(1.0, np.abs(v)))
            mon.check(not off.any(), "values are not rounded to the documented decimals", indicator=name, params=p,
                      example=float(v[off][0]) if off.any() else None)
            mon.ev("rounded_values", int(fin.sum()))
        for j, c in enumerate(data.columns):
            ok = np.isinf(want[c].v) | np.isinf(want[c].e) | ~np.isinf(v[:, j])
            mon.check(bool(ok.all()), "infinite value where the definition has none", indicator=name, params=p, column=c)
    r = np.random.default_rng(case["look"])
    n = len(data)
    if n:
        mon.check(lib.same(ind.getTiValue(), v[-1]), "latest value is not the last row", indicator=name, params=p)
        mon.check(isinstance(ind.getTiValue(), list), "value is not a list", indicator=name)
    for i in sorted({0, n - 1} | {int(x) for x in r.integers(0, max(n, 1), 10)}) if n else []:
        t = data.index[i]
        forms = [str(t), t, t.isoformat()]
        if t == t.normalize() and t.tz is None:
            forms += [t.strftime("%Y-%m-%d"), t.strftime("%Y%m%d"), t.to_pydatetime(), t.strftime("%d %B %Y")]
        f = forms[int(r.integers(len(forms)))]
        got = ind.getTiValue(f)
        mon.ev("lookups")
        mon.check(isinstance(got, list) and lib.same(got, v[i]), "looked-up value is not that row", indicator=name, params=p,
                  date=str(f), got=repr(got)[:120], row=[float(x) for x in v[i]])
    step = (df.index[1] - df.index[0]).as_unit("ns") if len(df) > 1 else pd.Timedelta(days=1)
    for t in (df.index[0] - pd.Timedelta(days=1000), df.index[-1] + step, df.index[-1] + pd.Timedelta(days=4000),
              df.index[0] + (step / 2).floor("us") if step > pd.Timedelta("1s") else df.index[0] - pd.Timedelta(days=3),
              "not a date", ""):
        if not isinstance(t, str) and t in df.index:
            continue
        mon.ev("unknown_lookups")
        got = ind.getTiValue(str(t))
        mon.check(got is None, "unknown date has a value", indicator=name, date=str(t), got=repr(got)[:120])
    mon.state(name, p, case["index"], case["data"]["regime"], n // 16)


# ------------------------------------------------------------------ D09
# (columns, inputs): a value is missing if one of these inputs is missing anywhere in its window (lookback) ...
OVER_WINDOW = {
    "MovingAverage": ("", "close"), "BollingerBands": ("", "close"), "Envelopes": ("", "close"),
    "StandardDeviation": ("", "close"), "LinearRegressionSlope": ("", "close"), "LinearRegressionIndicator": ("", "close"),
    "TimeSeriesForecast": ("", "close"), "ForecastOscillator": ("", "close"), "PriceOscillator": ("", "close"),
    "ChaikinMoneyFlow": ("", "high low close volume"), "ChandeMomentumOscillator": ("", "close"),
    "CommodityChannelIndex": ("", "high low close"), "EaseOfMovement": ("", "high low"),
    "IntradayMomentumIndex": ("", "open close"), "ProjectionOscillator": ("posc", "high low"), "Qstick": ("", "open close"),
    "StochasticOscillator": ("%K", "high low"), "SwingIndex": ("", "open close"), "UltimateOscillator": ("", "high low close"),
    "VerticalHorizontalFilter": ("", "close"), "VolumeOscillator": ("", "volume"), "WeightedClose": ("", "high low close"),
    "TypicalPrice": ("", "high low close"), "MedianPrice": ("", "high low"),
    "MarketFacilitationIndex": ("", "high low volume"), "WilliamsAccumulationDistribution": ("", "close"),
    "WilliamsR": ("", "high low")}
# ... or on its own date,
OWN_DATE = {
    "AccumulationDistributionLine": ("", "high low close volume"), "DirectionalMovementIndex": ("+di -di dx", "high low"),
    "EaseOfMovement": ("emv", "volume"), "Momentum": ("", "close"), "PriceRateOfChange": ("", "close"),
    "Performance": ("prf", "close"), "PriceAndVolumeTrend": ("", "close volume"), "ProjectionOscillator": ("posc", "close"),
    "RelativeMomentumIndex": ("", "close"), "StochasticOscillator": ("%K", "close"), "WilliamsR": ("", "close"),
    "WildersSmoothing": ("", "close")}
# ... exponential averages and running totals carry their last value over the date of a missing input
CARRIED = {"ChaikinOscillator": ("", "high low close volume"), "KlingerOscillator": ("", "high low close volume"),
           "MovingAverageConvergenceDivergence": ("macd", "close"), "NegativeVolumeIndex": ("", "volume"),
           "PositiveVolumeIndex": ("", "volume"), "OnBalanceVolume": ("", "close"), "MovingAverage": ("", "close")}


def windows(name, p, c):
    """(rows back to the window's end, length, inputs) of lines that are extremes over a window not ending today."""
    n = sp.SPECS[name].full(p).get("period")
    return {"highest_high": (1, n, ["high"]), "lowest_low": (1, n, ["low"])}.get(c) if name == "PriceChannel" else \
        {"tenkan_sen": (0, 9, ["high", "low"]), "kijun_sen": (0, 26, ["high", "low"]), "senkou_a": (26, 26, ["high", "low"]),
         "senkou_b": (26, 52, ["high", "low"])}.get(c) if name == "IchimokuCloud" else None


def over_gaps(mon, name, p, v, missing, look):
    """Values computed from missing inputs are missing, carried values are the last ones."""
    n = len(missing)
    i = np.arange(n)
    for c, x in v.items():
        def inputs(table):
            cols, ins = table.get(name, ("-", ""))
            return ins.split() if not cols or c in cols.split() else []
        expo = name == "MovingAverage" and p.get("ma_type") == "exponential"
        over = np.zeros(n, dtype=bool)
        ins = inputs(OVER_WINDOW) if name != "ProjectionBands" else [{"upper_band": "high", "lower_band": "low"}[c]]
        if c in look:
            for col in ins:
                h = np.concatenate([[0], np.cumsum(missing[col].to_numpy())])
                L = look[c] - (name == "UltimateOscillator" and col != "close")  # only the close of the bar before is used
                over |= h[i + 1] > h[np.maximum(i + 1 - L, 0)]
        w = windows(name, p, c)
        for col in w[2] if w and name == "PriceChannel" else ():  # Ichimoku's lines use what there is
            h = np.concatenate([[0], np.cumsum(missing[col].to_numpy())])
            hit = h[i + 1] > h[np.maximum(i + 1 - w[1], 0)]
            over[w[0]:] |= hit[:n - w[0]]
        for col in inputs(OWN_DATE):
            m = missing[col].to_numpy().copy()
            if name in ("PriceAndVolumeTrend", "WildersSmoothing", "RelativeMomentumIndex"):  # starting values
                m[:sp.SPECS[name].need(p)] = False
            over |= m
            if name in ("Momentum", "PriceRateOfChange"):
                k = look[c] - 1
                over[k:] |= m[:n - k]
        mon.ev("values_over_a_gap", int(over.sum()))
        if over.any():
            mon.ev("values_over_a_gap:" + name)
        wrong = np.flatnonzero(over[:len(x)] & ~np.isnan(x))
        if not mon.check(len(wrong) == 0, "a value is invented for a missing price", indicator=name, params=p, column=c,
                         rows=wrong[:5].tolist(), value=float(x[wrong[0]]) if len(wrong) else None):
            return
        if name in CARRIED and (name != "MovingAverage" or expo):
            m = missing[inputs(CARRIED)].any(axis=1).to_numpy() if inputs(CARRIED) else np.zeros(n, dtype=bool)
            k = np.flatnonzero(m[1:len(x)] & ~np.isnan(x[:-1])) + 1
            mon.ev("values_carried", len(k))
            ok = np.abs(x[k] - x[k - 1]) <= 1e-9 * np.abs(x[k])
            if not mon.check(bool(ok.all()), "a running value moves on a date whose input is missing", indicator=name, params=p,
                             column=c, rows=k[~ok][:5].tolist()):
                return


def d09_fields(rng, name, S, k):
    p = S.sample(rng, big=15)
    n = S.need(p) + int(rng.integers(3, 90))
    mode = ["complete", "byhand", "gap", "gap", "gap", "gap"][k % 6]
    return {"params": p, "data": gen.sample(rng, n), "mode": mode, "holes": int(rng.integers(1 << 30)),
            "kind": str(rng.choice(["few", "few", "few", "late", "single", "runs", "trail", "dense"])), "sim": k % 4 == 0,
            "rows": str(rng.choice(["asc", "desc", "shuffle"])), "index": str(rng.choice(gen.INDEXES))}


def few_holes(df, seed, late):
    r = np.random.default_rng(seed)
    g, n = df.copy(), len(df)
    for c in g.columns:
        if r.random() < 0.6:
            for _ in range(int(r.integers(1, 3))):
                a = int(r.integers(n // 2 if late else 0, n))
                g.iloc[a:a + int(r.integers(1, 4)), g.columns.get_loc(c)] = np.nan
        if g[c].isna().all():
            a = int(r.integers(n))
            g.iloc[a, g.columns.get_loc(c)] = df[c].iloc[a]
    return g


def d09(case, mon):
    name, p, mode = case["ind"], case["params"], case["mode"]
    S = sp.SPECS[name]
    df = gen.make(case["data"])
    df.index = gen.index_of(case["index"], len(df), case["holes"])
    off = dict(p, fill_missing_values=False)
    sim = {"max_exposure": float(3 * df["close"].mean())} if case["sim"] else None
    gappy = few_holes(df, case["holes"], case["kind"] == "late") if case["kind"] in ("few", "late") else gen.holes(
        df, case["holes"], case["kind"])
    shown = gen.present(gappy, {"rows": case["rows"], "seed": case["holes"]})
    mon.state(name, p, mode, case["kind"], case["rows"], case["index"], case["data"]["regime"])
    if mode in ("complete", "byhand"):
        given = gen.present(df if mode == "complete" else gen.fill(gappy), {"rows": case["rows"], "seed": 3})
        other = given if mode == "complete" else shown
        a = answers(name, other, p, sim, other[["close"]])
        b = answers(name, given, off, sim, given[["close"]])
        compare(mon, name, p, a, b, "filling switched off for data without gaps", sim=case["sim"], mode=mode)
        return
    pic = lib.shot(shown)
    ind = lib.build(name, shown, off)
    sig = ind.getTiSignal()
    data = ind.getTiData()
    mon.check(lib.shot(shown) == pic, "the caller's frame was modified", indicator=name)
    mon.check(sig in lib.SIGNALS.values(), "signal is not one of the documented values", indicator=name, params=p, got=repr(sig))
    if not lib.structure(mon, name, p, data, df.index):
        return
    v = {c: data[c].to_numpy(dtype=float) for c in data.columns}
    if refsig.undefined(name, v, S.full(p), len(data)) and all(np.isnan(q[-1]) for q in v.values()):
        mon.ev("undefined_signals")
        mon.check(sig == ("hold", 0), "signal other than hold from undefined data", indicator=name, params=p, got=repr(sig),
                  tail={c: [float(z) for z in q[-4:]] for c, q in v.items()})
    if case["sim"]:
        rec, _stats = lib.simulate(ind, shown[["close"]])
        num, _txt = lib.record(rec)
        m = len(data)
        mon.check(lib.same(num[:m, 0], gen.fill(gappy)["close"].to_numpy()[:m]), "stock value is not the (filled) close price",
                  indicator=name, params=p)
        mon.check(bool(np.isfinite(num[:m]).all()), "a simulated day has no figures", indicator=name, params=p)
        mon.ev("simulations_compared")
    missing = gappy[list(S.req)].isna()
    if not S.causal:
        return
    full = val.observe(name, df, p)
    bad = missing.any(axis=1).to_numpy()
    first = int(np.flatnonzero(bad)[0]) if bad.any() else len(df)
    if name == "ParabolicSAR" and first == 1:  # the first position follows from the first two bars
        first = 0
    look = val.lookback(name, p) or {}
    hits = np.concatenate([[0], np.cumsum(bad)])
    i = np.arange(len(df))
    for c, x in full.items():
        keep = i < first
        if c in look:
            L = look[c]
            keep = keep | ((i >= L - 1) & (hits[i + 1] == hits[np.maximum(i + 1 - L, 0)]))
        w = windows(name, p, c)
        if w:
            h = np.concatenate([[0], np.cumsum(missing[w[2]].any(axis=1).to_numpy())])
            clear = np.zeros(len(df), dtype=bool)
            end = i - w[0] + 1  # one past the window's last row
            k = end >= w[1]
            clear[k] = h[end[k]] == h[end[k] - w[1]]
            keep = keep | clear
        y = val.V(v[c], x.e)
        val.agree(mon, "a missing value affects dates that do not use it", x, y, mask=keep, indicator=name, params=p, column=c,
                  first_gap=first, window=look.get(c))
    over_gaps(mon, name, p, v, missing, look)


COMMON = ["unique timestamps", "valid OHLC bars", "int64/float64 columns"]
CHECKS = {
    "D01": Check("D01", per_indicator(16, d01_fields), d01,
                 "A case is one indicator with a caller's frame (presentation, gaps, extra columns) and a random history of "
                 "calls incl. failing ones; the frames are pictured bit for bit before and after every call, then changed "
                 "by the caller. Distinct: (indicator, presentation, call history, mutation).",
                 need=("snapshots_compared", "isolation_checks", "failing_calls"), assumptions=COMMON),
    "D02": Check("D02", per_indicator(32, d02_fields), d02,
                 "A case runs one history in its canonical presentation and in another one (rows, columns, case, extra "
                 "columns, integer dtypes), complete or with gaps, with and without filling, and compares data, signal, value "
                 "and simulation. Distinct: (indicator, presentation, filling, parameters).",
                 need=("histories_with_gaps", "histories_without_filling", "values_compared", "signals_compared", "simulations_compared"), assumptions=COMMON),
    "D03": Check("D03", per_indicator(46, d03_fields), d03,
                 "A case runs one history under two calendars and compares everything by position; dates must be the "
                 "input's. Distinct: (indicator, calendar, row order, parameters).",
                 need=("values_compared", "signals_compared", "simulations_compared"), assumptions=COMMON),
    "D04": Check("D04", per_indicator(28, d04_fields), d04,
                 "A case runs a history with gaps and its reference-filled twin; also the public fill function. Distinct: "
                 "(indicator, gap pattern, row order, calendar, parameters).",
                 need=("values_compared", "gaps", "fills_compared", "simulations_compared"), assumptions=COMMON),
    "D05": Check("D05", d05_cases, d05,
                 "A case hands one malformed input (single defect) to one indicator; the error type and the input are "
                 "monitored. Distinct: (indicator, defect, variant).", need=("rejected", "accepted", "simulation rejected"), assumptions=COMMON),
    "D06": Check("D06", d06_cases, d06,
                 "A case constructs one indicator with one chosen value of one parameter and random valid other ones; "
                 "accepted ones must give the values of the reference definition. Distinct: (indicator, all parameter "
                 "values).", need=("rejected", "accepted", "values_of_accepted_parameters"), assumptions=COMMON),
    "D07": Check("D07", per_indicator(40, d07_fields), d07,
                 "A case constructs one indicator on data at, below or above its minimum length or on degenerate data, and "
                 "makes every request. Distinct: (indicator, mode, regimes, length over minimum, parameters).",
                 need=("constructed", "refused_for_length", "calls_completed"), assumptions=COMMON,
                 timeout_is_violation=True),
    "D08": Check("D08", per_indicator(40, d08_fields), d08,
                 "A case inspects the whole result of one indicator and looks up known and unknown dates in several "
                 "notations. Distinct: (indicator, parameters, calendar, regime, length/16).",
                 need=("lookups", "unknown_lookups", "rounded_values"), assumptions=COMMON),
    "D09": Check("D09", per_indicator(36, d09_fields), d09,
                 "A case switches filling off: on complete or hand-filled data all answers must be those of the default, on "
                 "data with gaps every value not using a gap must be that of the complete data and averages over a gap "
                 "must be missing. Distinct: (indicator, parameters, mode, gap pattern, row order, calendar, regime).",
                 need=("values_compared", "values_over_a_gap", "simulations_compared", "undefined_signals"),
                 assumptions=COMMON),
}
