"""F01-F06: every reported value against the reference definition."""
import numpy as np

from .. import gen, lib, ref, spec as sp
from ..runner import Check

PER = {"quick": 1000, "thorough": 6000}


def cases_for(family):
    def cases(rng, tier):
        names = sp.FAMILY[family]
        out = []
        per = int(PER[tier] * (1.0 if len(names) > 8 else 1.6))
        for name in names:
            S = sp.SPECS[name]
            for k in range(per):
                big = 40 if k % 10 else (130 if k % 20 else 260)
                p = S.sample(rng, big=big, default_p=0.25, far=0.08)
                n = sp.pick_n(rng, S.need(p), tier)
                if k % 97 == 0:
                    n = int(rng.integers(600, 1300))
                if k % 500 == 7:
                    n = int(rng.integers(1800, 4500))
                if k % 500 == 11:
                    n = int(rng.integers(4500, 7000))
                out.append({"ind": name, "params": p, "data": gen.sample(rng, n),
                            "delivery": gen.sample_delivery(rng, 0.6)})
        return out
    return cases


def run(case, mon):
    name, p = case["ind"], case["params"]
    frame, canon = gen.deliver(case["data"], case["delivery"])
    obs = lib.build(name, frame, p).getTiData()
    if not lib.structure(mon, name, p, obs, canon.index):
        return
    judge(mon, name, p, obs, gen.arrays(canon))
    mon.state(name, sorted(p.items()), case["data"]["regime"], case["data"]["vol"], case["data"]["n"] // 16)


def judge(mon, name, p, obs, d, what="reported value differs from the definition"):
    """Compares every reported value with the reference definition."""
    S = sp.SPECS[name]
    with np.errstate(all="ignore"):
        want = ref.REF[name](d, **p)
    for c, x in want.items():
        o = obs[c].to_numpy(dtype=float)
        bad, amb = lib.mismatch(o, x.v, x.e, lib.tolerances(obs[c], S, x))
        mon.ev("rows_judged", len(o) - int(amb.sum()))
        mon.ev("rows_not_decidable_in_float64", int(amb.sum()))
        mon.ev("rows_undefined", int(np.isnan(o).sum()))
        mon.ev("rows:" + name, len(o))
        if bad.any():
            i = int(np.argmax(bad))
            mon.fail(what, indicator=name, params=p, column=c, row=i,
                     of_rows=len(o), observed=float(o[i]), expected=float(x.v[i]), bound=float(x.e[i]),
                     differing_rows=int(bad.sum()))


RULE = ("A case is one indicator x parameter set x generated OHLCV history (19 price regimes, 5 price grids, 8 volume "
        "regimes, lengths from the exact minimum up) x delivery (row/column order, gaps, calendar); every row and "
        "column is judged. Distinct non-trivial: distinct (indicator, parameters, price regime, volume regime, "
        "length/16) whose result was compared.")
ASSUME = ["unique timestamps", "valid OHLC bars: low <= open, close <= high, prices > 0, volume >= 0",
          "int64/float64 columns", "default missing-value filling"]

CHECKS = {pid: Check(pid, cases_for(fam), run, RULE, need=("rows_judged",) + tuple(
    "rows:" + n for n in sp.FAMILY[fam]), assumptions=ASSUME)
    for pid, fam in (("F01", "averages"), ("F02", "bands"), ("F03", "regression"), ("F04", "momentum"),
                     ("F05", "volume"), ("F06", "range"))}
