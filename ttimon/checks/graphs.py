"""G01-G02: the artists of the produced figures against the data they have to show."""
import io

import numpy as np
import pandas as pd

from .. import gen, lib, ref, spec as sp
from ..ev import V, ema
from ..runner import Check
from . import simulation as sim

from tti.utils.plot import linesGraph

CLOSE_ABOVE = """AccumulationDistributionLine AverageTrueRange ChaikinMoneyFlow ChaikinOscillator ChandeMomentumOscillator
CommodityChannelIndex DetrendedPriceOscillator DirectionalMovementIndex ForecastOscillator IntradayMomentumIndex
KlingerOscillator LinearRegressionSlope Momentum MovingAverageConvergenceDivergence NegativeVolumeIndex OnBalanceVolume
Performance PositiveVolumeIndex PriceAndVolumeTrend PriceOscillator PriceRateOfChange ProjectionOscillator Qstick
RangeIndicator RelativeMomentumIndex RelativeStrengthIndex StandardDeviation StochasticMomentumIndex StochasticOscillator
SwingIndex UltimateOscillator VerticalHorizontalFilter WilliamsAccumulationDistribution WilliamsR""".split()
OWN = {"EaseOfMovement": [[]], "VolatilityChaikins": [[]], "MedianPrice": [["close_ema"]],
       "MassIndex": [["close", "9_ema"], []], "RelativeVolatilityIndex": [["high", "low"], []],
       "MarketFacilitationIndex": [["volume"], []], "VolumeOscillator": [["volume"], []], "VolumeRateOfChange": [["volume"], []]}
TITLE = {"Envelopes": "Envelopes (Trading Bands)", "ParabolicSAR": "Parabolic SAR", "TypicalPrice": "TypicalPrice",
         "WeightedClose": "WeightedClose", "WilliamsR": "Williams %R", "Qstick": "Qstick"}
AREAS = {"IchimokuCloud": ("senkou_a", "senkou_b")}


def panels(name):
    """Price or volume columns per panel; the indicator's own columns follow in the last panel."""
    if name in OWN:
        return [list(x) for x in OWN[name]]
    return [["close"], []] if name in CLOSE_ABOVE else [["close"]]


def title(name):
    return TITLE.get(name) or "".join(" " + c if c.isupper() and i else c for i, c in enumerate(name))


def squash(s):
    return "".join(str(s).lower().split())


def dates(index):
    """Matplotlib's day numbers of the index (UTC)."""
    return index.as_unit("ns").asi8 / 86400e9


def snap(fig):
    out = []
    for ax in fig.axes:
        out.append((ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_position().bounds, ax.get_xscale(), ax.get_yscale()))
        out.append([(str(ln.get_label()), str(ln.get_color()), ln.get_alpha(), ln.get_linestyle(), ln.get_linewidth(),
                     str(ln.get_marker()), np.asarray(ln.get_xdata(orig=False), float).tobytes(),
                     np.asarray(ln.get_ydata(orig=False), float).tobytes()) for ln in ax.get_lines()])
        out.append([([p.vertices.tobytes() for p in c.get_paths()], np.asarray(c.get_facecolor()).tobytes())
                    for c in ax.collections])
        out.append([t.get_text() for t in ax.texts])
    return out, fig.get_suptitle(), [t.get_text() for t in fig.texts], [t.get_text() for lg in legends(fig) for t in lg.get_texts()]


def legends(fig):
    return list(fig.legends) + [ax.get_legend() for ax in fig.axes if ax.get_legend() is not None]


def close_to(a, b, tol):
    with np.errstate(all="ignore"):
        return len(a) == len(b) and bool(((np.abs(a - b) <= tol) | (a == b) | (np.isnan(a) & np.isnan(b))).all())


def judge_lines(mon, fig, want, index, ctx, tol=None):
    """want: per panel a list of (label, values, tolerance)."""
    if not mon.check(len(fig.axes) == len(want), "number of panels differs", got=len(fig.axes), expected=len(want), **ctx):
        return False
    ok = True
    for k, (ax, exp) in enumerate(zip(fig.axes, want)):
        lines = ax.get_lines()
        got = sorted(str(ln.get_label()) for ln in lines)
        if not mon.check(got == sorted(str(e[0]) for e in exp), "lines of a panel differ", panel=k, got=got,
                         expected=[str(e[0]) for e in exp], **ctx):
            return False
        for ln in lines:
            label, val, tol = [e for e in exp if str(e[0]) == str(ln.get_label())][0][:3]
            ix = [e for e in exp if str(e[0]) == str(ln.get_label())][0][3]
            y = np.asarray(ln.get_ydata(orig=False).filled(np.nan) if np.ma.isMaskedArray(ln.get_ydata(orig=False))
                           else ln.get_ydata(orig=False), dtype=float)
            x = np.asarray(ln.get_xdata(orig=False), dtype=float)
            mon.ev("lines")
            mon.ev("points", len(y))
            if len(ix) < len(index) and len(y) == len(index):  # joined on the longer index: not drawn there
                val = np.concatenate([val, np.full(len(index) - len(ix), np.nan)])
                ix = index
            ok &= mon.check(len(x) == len(ix) and close_to(x, ix, 2e-9), "points of a line are not on the data's dates", panel=k,
                            line=label, points=len(x), expected=len(ix), **ctx)
            ok &= mon.check(len(y) == len(val) and close_to(y, val, tol), "points of a line are not the data", panel=k,
                            line=label, **ctx)
            ok &= mon.check(bool(ln.get_visible()) and ln.get_linestyle() not in ("None", "", " ") and (
                ln.get_alpha() is None or ln.get_alpha() > 0) and ln.get_linewidth() > 0, "a line is not visible", panel=k,
                line=label, **ctx)
    shown = sorted(t.get_text() for lg in legends(fig) for t in lg.get_texts())
    ok &= mon.check(shown == sorted(str(e[0]) for exp in want for e in exp), "legends do not name exactly the lines", got=shown,
                    **ctx)
    return ok


def row_of(x, p):
    """Row whose date is p, -1 if none."""
    i = int(np.abs(x - p).argmin())
    return i if abs(x[i] - p) <= 2e-9 else -1


def judge_areas(mon, fig, want, x, ctx):
    """want: list of (panel, y1, y2), x the dates."""
    import matplotlib.collections as mc
    got = [(k, c) for k, ax in enumerate(fig.axes) for c in ax.collections if isinstance(c, mc.PolyCollection)]
    if not mon.check(len(got) == len(want), "number of shaded areas differs", got=len(got), expected=len(want), **ctx):
        return
    for (k, c), (panel, a, b) in zip(got, want):
        mon.ev("areas")
        a, b = np.broadcast_to(np.asarray(a, float), len(x)), np.broadcast_to(np.asarray(b, float), len(x))
        fin = ~(np.isnan(a) | np.isnan(b))
        exp = {(int(i), float(q)) for v in (a, b) for i, q in zip(np.flatnonzero(fin), v[fin])}
        vs = [p.vertices[~np.isnan(p.vertices).any(axis=1)] for p in c.get_paths()]
        have = {(row_of(x, p), float(q)) for v in vs for p, q in v}
        mon.ev("area_points", len(exp))
        mon.check(k == panel, "a shaded area is in another panel", got=k, expected=panel, **ctx)
        miss, more = exp - have, have - exp
        mon.check(not miss and not more, "a shaded area does not span its lines", missing=sorted(miss)[:4],
                  additional=sorted(more)[:4], **ctx)


NG1 = {"quick": 12, "thorough": 90}


def g01_cases(rng, tier):
    out = []
    for name in sp.NAMES:
        S = sp.SPECS[name]
        for k in range(NG1[tier]):
            p = S.sample(rng, big=30)
            n = S.need(p) + int(rng.choice([0, 1, 2, 7, 20, 45, 90]))
            if name == "IchimokuCloud" and k % 3:
                n += 60
            reg = str(rng.choice(gen.REGIMES))
            c = {"ind": name, "params": p, "data": gen.sample(rng, n, reg), "delivery": gen.sample_delivery(rng, 0.5),
                 "before": [str(x) for x in rng.choice(["own", "other", "sim", "close", "plot", "hold", "style"],
                                                       int(rng.integers(0, 4)))],
                 "other": str(rng.choice(sp.NAMES)), "save": k % 5 == 0, "seed": int(rng.integers(1 << 30))}
            out.append(c)
    for name in sp.NAMES:  # many points
        for k in range(1 if tier == "quick" else 6):
            n = int(rng.integers(1050, 2300))
            out.append({"ind": name, "params": sp.SPECS[name].sample(rng, big=30), "data": gen.sample(rng, n), "delivery": None,
                        "before": [], "other": name, "save": False, "seed": 1})
    for k in range(NG1[tier] * 12):
        out.append({"util": int(rng.integers(1 << 30))})
    return out


def history(case, frame, name, p, mon):
    """Drawing activity before the graph of interest; returns still existing figures with their pictures."""
    import matplotlib.pyplot as plt
    alive = []
    for op in case["before"]:
        if op in ("own", "other"):
            q = name if op == "own" else case["other"]
            prm = p if op == "own" else {}
            if sp.SPECS[q].need(prm) > len(frame):
                continue
            lib.build(q, frame, prm).getTiGraph()
        elif op == "sim":
            lib.build(name, frame, p).getTiSimulation(frame)
        elif op == "close":
            plt.close("all")
            alive = []
            continue
        elif op == "plot":
            plt.plot([1, 2, 3], label="own drawing")
        elif op == "hold":
            f, ax = plt.subplots(2, 2)
            plt.sca(ax[0][1])
        else:
            plt.figure(7)
            plt.title("mine")
        alive.append(plt.gcf())
        mon.ev("drawn_before")
    return [(f, snap(f)) for f in alive]


def expected_panels(name, p, ind, canon):
    data = ind.getTiData()
    d = gen.arrays(canon)
    x = dates(canon.index)
    want = []
    for cols in panels(name):
        lines = []
        for c in cols:
            if c in ("9_ema", "close_ema"):
                e = ema(V(d["close"]), *((9,) if c == "9_ema" else (sp.SPECS[name].full(p)["period"],)),
                        minp=9 if c == "9_ema" else sp.SPECS[name].full(p)["period"])
                lines.append((c, e.v, 1e-9 * (1 + np.abs(d["close"]).max()), x))
            else:
                lines.append((c, d[c], 0.0, x))
        want.append(lines)
    xi = dates(data.index)
    want[-1] += [(c, data[c].to_numpy(dtype=float), 0.0, xi) for c in data.columns]
    return want, x


def g01(case, mon):
    import matplotlib.pyplot as plt
    plt.close("all")
    if "util" in case:
        return util(case, mon)
    name, p = case["ind"], case["params"]
    frame, canon = gen.deliver(case["data"], case["delivery"])
    ctx = dict(indicator=name, params=p, rows=len(canon), before=case["before"])
    alive = history(case, frame, name, p, mon)
    ind = lib.build(name, frame, p)
    old = set(plt.get_fignums())
    g = ind.getTiGraph()
    fig = g.gcf()
    mon.check(set(plt.get_fignums()) - old == {fig.number}, "the graph is not one new figure", figures=plt.get_fignums(), **ctx)
    want, x = expected_panels(name, p, ind, canon)
    judge_lines(mon, fig, want, x, ctx)
    mon.check(squash(title(name)) in squash(fig.get_suptitle()), "the title is not the indicator's name", got=fig.get_suptitle(),
              expected=title(name), **ctx)
    area = AREAS.get(name)
    d = ind.getTiData()
    judge_areas(mon, fig, [(len(want) - 1, d[area[0]].to_numpy(dtype=float), d[area[1]].to_numpy(dtype=float))] if area else [],
                x, ctx)
    for f, picture in alive:
        mon.check(snap(f) == picture, "drawing a graph changed an earlier figure", **ctx)
    again = ind.getTiGraph().gcf()
    mon.check(again is not fig and snap(again) == snap(fig), "a repeated graph differs", **ctx)
    if case["save"]:
        plt.figure(fig.number)
        b = io.BytesIO()
        g.savefig(b, format="png", dpi=40)
        mon.ev("rendered")
        mon.check(len(b.getvalue()) > 1000, "the graph cannot be saved", **ctx)
    plt.close("all")
    mon.state(name, p, case["before"], len(canon) // 8, case["delivery"] is None)


def util(case, mon):
    """linesGraph, the drawing utility, on arbitrary frames and areas."""
    import matplotlib.pyplot as plt
    r = np.random.default_rng(case["util"])
    n = int(r.choice([1, 2, 3, 10, 40]))
    k = int(r.choice([1, 1, 2, 2]))
    ix = gen.index_of(str(r.choice(gen.INDEXES)), n, 3)
    frames, cols = [], ["a", "b c", "_x1", "close", "Rl_23.6", "+di"]
    for j in range(k):
        v = {c: np.where(r.random(n) < 0.1, np.nan, r.normal(0, 10, n)) for c in
             r.choice(cols, int(r.integers(1, 5)), replace=False) if c != "_x1"}
        v = v or {"a": np.arange(n) * 1.0}
        frames.append(pd.DataFrame(v, index=ix))
    areas, want = None, []
    x = dates(ix)
    if r.random() < 0.6:
        areas = []
        for _ in range(int(r.integers(1, 4))):
            side = []
            for _s in range(2):
                if r.random() < 0.5:
                    j = int(r.integers(k))
                    c = str(r.choice(frames[j].columns))
                    side.append(([j, "ti_data", c], frames[j][c].to_numpy()))
                else:
                    v = float(np.round(r.normal(0, 20), 1))
                    side.append((v, v))
            areas.append({"x": "ti_index", "y1": side[0][0], "y2": side[1][0], "color": "lightblue"})
            want.append((k - 1, side[0][1], side[1][1]))
    colors = [["black", "red"], ["limegreen"], None][int(r.integers(3))]
    alphas = [[0.5, 1.0, 1.0], [0.3], None][int(r.integers(3))]
    one = k == 1 and r.random() < 0.5
    copies = [f.copy() for f in frames]
    ctx = dict(case=case["util"], panels=k, rows=n)
    fig = linesGraph(data=frames[0] if one else frames, y_label="Y", title="T", lines_color=colors, alpha_values=alphas,
                     areas=areas).gcf()
    judge_lines(mon, fig, [[(c, f[c].to_numpy(dtype=float), 0.0, x) for c in f.columns] for f in frames], x, ctx)
    judge_areas(mon, fig, want, x, ctx)
    mon.check(fig.get_suptitle() == "T", "the title is not the given one", got=fig.get_suptitle(), **ctx)
    mon.check(all(f.equals(g) for f, g in zip(frames, copies)), "drawing changed the given data", **ctx)
    for bad in ([frames[0]["%s" % frames[0].columns[0]]], frames[0].to_numpy(), None, frames + [frames[0].reset_index(drop=True)]):
        try:
            linesGraph(data=bad, y_label="Y", title="T", lines_color=colors, alpha_values=alphas, areas=None)
        except TypeError:
            mon.ev("rejected")
        else:
            mon.fail("invalid graph data are accepted", got=type(bad).__name__, **ctx)
    plt.close("all")
    mon.state("linesGraph", k, n, len(want), one)


# ------------------------------------------------------------------ G02
NG2 = {"quick": 8, "thorough": 110}


def g02_cases(rng, tier):
    out = []
    for name in sp.NAMES:
        for k in range(NG2[tier]):
            c = sim.sample_sim(rng, name, k, 50)
            c["before"] = [str(x) for x in rng.choice(["own", "other", "sim", "close", "plot", "hold", "style"],
                                                      int(rng.integers(0, 4)))]
            c["named"] = str(rng.choice(sp.NAMES))
            c["save"] = k % 7 == 0
            out.append(c)
    for k in range(8 if tier == "quick" else 60):  # many days
        c = sim.sample_sim(rng, str(rng.choice([x for x in sp.NAMES if sp.SPECS[x].causal])), k, 50)
        n = int(rng.integers(600, 1500))
        c.update(kind=str(rng.choice(sim.KINDS[:-1])), data=dict(c["data"], n=n), before=[], named=c["ind"], save=False)
        if c["other"]:
            c["other"]["n"] = n
        out.append(c)
    return out


def g02(case, mon):
    import matplotlib.pyplot as plt
    plt.close("all")
    name, p = case["ind"], case["params"]
    ind, given, canon, close, limit, _words = sim.start(case)
    ctx = dict(indicator=name, params=p, rows=len(canon), before=case["before"])
    frame = gen.make(case["data"])
    alive = history(dict(case, other=case["named"]), frame, name, p, mon)
    old = set(plt.get_fignums())
    rec, _stats, g = ind.getTiSimulation(given, max_exposure=limit, short_exposure_factor=case["factor"])
    fig = g.gcf()
    mon.check(set(plt.get_fignums()) - old == {fig.number}, "the simulation graph is not one new figure", **ctx)
    num, _txt = lib.record(rec)
    n = len(rec)
    x = np.arange(1, n + 1, dtype=float)
    rows = len(ind.getTiData())
    want = [[("close_price", num[:, 0], 0.0, x)], [("exposure", num[:, 1], 0.0, x)], [("balance", num[:, 4], 0.0, x)]]
    judge_lines(mon, fig, want, x, ctx)
    judge_areas(mon, fig, [], x, ctx)
    mon.check(lib.same(num[:rows, 0], close[:rows]), "the drawn close prices are not the given ones", **ctx)
    mon.check(name.lower() in squash(fig.get_suptitle()), "the title does not name the indicator", got=fig.get_suptitle(), **ctx)
    for f, picture in alive:
        mon.check(snap(f) == picture, "a simulation graph changed an earlier figure", **ctx)
    before = snap(fig)
    ind.getTiSimulation(given, max_exposure=None if limit else 1.0)
    mon.check(snap(fig) == before, "a later simulation changed an earlier simulation's graph", **ctx)
    if case["save"]:
        plt.figure(fig.number)
        b = io.BytesIO()
        g.savefig(b, format="png", dpi=40)
        mon.ev("rendered")
    plt.close("all")
    mon.state(name, p, case["before"], case["kind"], n // 8)


CHECKS = {
    "G01": Check("G01", g01_cases, g01,
                 "A case draws one indicator's graph (or one linesGraph) after a random drawing history and judges every "
                 "line, label, legend and area. Distinct: (indicator, parameters, history, rows/8, delivery).",
                 need=("lines", "areas", "area_points", "drawn_before", "rendered", "rejected"),
                 assumptions=["Agg backend", "unique timestamps", "colours and styles are not judged"]),
    "G02": Check("G02", g02_cases, g02,
                 "A case draws one simulation after a random drawing history and judges every line and label. Distinct: "
                 "(indicator, parameters, history, signals, rows/8).",
                 need=("lines", "points", "drawn_before", "rendered"), assumptions=["Agg backend", "unique timestamps"]),
}
