"""C01-C03: independence of indicators from each other, across histories, processes and threads."""
import hashlib
import json
import os
import subprocess
import sys
import threading

import numpy as np
import pandas as pd

from .. import env, gen, lib, spec as sp
from ..runner import Check
from . import signals as sig

A = ["unique timestamps", "callers do not modify returned frames"]


# ------------------------------------------------------------------ C01
NC1 = {"quick": 330, "thorough": 5200}
STEPS = ("data", "value", "value_at", "signal", "sim", "sim_tight", "sim_bad", "graph", "value_unknown")
NOISE = ("bad_param", "short", "bad_type", "no_col", "extra_class", "fill", "mutate_other")


def c01_cases(rng, tier):
    out = []
    for k in range(NC1[tier]):
        if k % 20 == 0:
            jobs = [pick(rng) for _ in range(6)]
            # the same indicator, parameters, dates other data
            jobs += [dict(o, data=dict(o["data"], seed=int(rng.integers(1 << 31)))) for o in jobs]
            out.append({"process": jobs, "hash": int(rng.integers(1, 9999)),
                        "order": int(rng.integers(1 << 30))})
            continue
        if k % 5 == 3:
            a = pick(rng)
            same = [x for x in sp.NAMES if sp.SPECS[x].req == sp.SPECS[a["ind"]].req]
            b = pick(rng, str(rng.choice(same)))
            a["data"]["n"] = max(a["data"]["n"], b["data"]["n"])
            out.append({"edited": [a, b], "order": int(rng.integers(1 << 30)), "steps": int(rng.integers(5, 12))})
            continue
        names = [str(x) for x in rng.choice(sp.NAMES, int(rng.integers(2, 6)))]
        if rng.random() < 0.4:
            names[1] = names[0]
        objs = [pick(rng, n) for n in names]
        if k % 3 == 0:
            objs[1] = dict(objs[0], data=dict(objs[0]["data"], seed=int(rng.integers(1 << 31))))
        elif k % 3 == 1:
            objs[1] = dict(objs[0], params=sp.SPECS[names[0]].sample(rng, big=12, default_p=0.0))
            objs[1]["data"] = objs[0]["data"] = dict(objs[0]["data"], n=objs[0]["data"]["n"] + 60)
        out.append({"objects": objs, "order": int(rng.integers(1 << 30)),
                    "share": bool(rng.random() < 0.5), "steps": int(rng.integers(8, 22))})
    return out


def pick(rng, name=None):
    name = name or str(rng.choice(sp.NAMES))
    p = sp.SPECS[name].sample(rng, big=25)
    n = sp.SPECS[name].need(p) + int(rng.integers(1, 40))
    return {"ind": name, "params": p, "data": gen.sample(rng, n), "delivery": gen.sample_delivery(rng, 0.6)}


def answer(o, op, k, ind=None, frame=None, canon=None):
    if ind is None:
        frame, canon = gen.deliver(o["data"], o["delivery"])
        ind = lib.build(o["ind"], frame, o["params"])
    return sig.ask(ind, op, frame, canon, k)


def noise(what, o, frame):
    """Unrelated activity, often failing."""
    S = sp.SPECS[o["ind"]]
    try:
        if what == "bad_param":
            lib.build(o["ind"], frame, {k: "wrong" for k in list(S.defaults)[-1:]} or {"nothing": 1})
        elif what == "short":
            lib.build(o["ind"], frame.iloc[:0], o["params"])
        elif what == "bad_type":
            lib.build(o["ind"], list(range(5)), o["params"])
        elif what == "no_col":
            lib.build(o["ind"], frame[[c for c in frame.columns if str(c).lower() != S.req[0]]], o["params"])
        elif what == "extra_class":
            type("Own", (getattr(lib.ti, o["ind"]),), {})(frame, **o["params"])
        elif what == "fill":
            import tti.utils as tu
            tu.fillMissingValues(frame.select_dtypes("number"))
        else:
            x = lib.build(o["ind"], frame, o["params"])
            d = x.getTiData()
            d.iloc[:, :] = -1.0
            d.columns = ["z%d" % i for i in range(d.shape[1])]
            x.getTiValue().append(5)
    except Exception:
        return "failed"
    return "done"


def c01(case, mon):
    if "process" in case:
        return processes(case, mon)
    if "edited" in case:
        return edited(case, mon)
    r = np.random.default_rng(case["order"])
    objs = case["objects"]
    if case["share"]:  # the same frame for all that can use it
        n = max(o["data"]["n"] for o in objs)
        for o in objs:
            o["data"] = dict(objs[0]["data"], n=n)
            o["delivery"] = objs[0]["delivery"]
    plan = [(int(r.integers(len(objs))), str(r.choice(STEPS, p=[.2, .1, .1, .2, .12, .12, .06, .05, .05])),
             int(r.integers(1 << 20))) for _ in range(case["steps"])]
    alone = [answer(objs[i], op, k) for i, op, k in plan]  # each in isolation, first
    frames = [gen.deliver(o["data"], o["delivery"]) for o in objs]
    if case["share"]:
        frames = [frames[0]] * len(objs)
    shots = [lib.shot(f[0]) for f in frames]
    live = {}
    done = []
    for (i, op, k), want in zip(plan, alone):
        if r.random() < 0.35:
            j, what = int(r.integers(len(objs))), str(r.choice(NOISE))
            mon.ev("unrelated:" + noise(what, objs[j], frames[j][0]))
            done.append([what, objs[j]["ind"]])
        if i not in live or r.random() < 0.1:
            live[i] = lib.build(objs[i]["ind"], frames[i][0], objs[i]["params"])
        got = answer(objs[i], op, k, live[i], *frames[i])
        mon.ev("answers")
        done.append([op, objs[i]["ind"], objs[i]["params"]])
        if not mon.check(got == want, "an indicator's answer depends on other indicators used in the process",
                         indicator=objs[i]["ind"], params=objs[i]["params"], query=op, history=done[-12:]):
            break
    mon.check([lib.shot(f[0]) for f in frames] == shots, "using several indicators changed a caller's frame",
              indicators=[o["ind"] for o in objs])
    mon.state(*[o["ind"] for o in objs], case["share"], case["steps"])


EDITS = ("scale", "tail", "cell", "gap", "sort", "swap", "replace", "replace", "relabel", "append")


def edit(frame, how, r):
    """The owner changes the frame, in place except for `replace`."""
    low = {str(c).lower(): i for i, c in enumerate(frame.columns)}
    cols = [low[c] for c in ("open", "high", "low", "close")]
    n = len(frame)
    for i in cols + [low["volume"]]:
        frame.isetitem(i, frame.iloc[:, i].astype(float))
    if how == "scale":
        frame.iloc[:, cols] = frame.iloc[:, cols] * float(r.choice([0.5, 1.01, 2.0, 10.0]))
    elif how == "tail":
        k = int(r.integers(0, n))
        frame.iloc[k:, cols] = frame.iloc[k:, cols] * 1.25
    elif how == "cell":
        frame.iloc[int(r.integers(n)), cols] = frame.iloc[int(r.integers(n)), cols].to_numpy()
    elif how == "gap":
        frame.iloc[int(r.integers(n)), cols[3]] = np.nan
    elif how == "sort":
        frame.sort_index(inplace=True, ascending=bool(r.integers(2)))
    elif how == "swap":
        frame.iloc[:, cols] = frame.iloc[::-1, cols].to_numpy()
    elif how == "relabel":
        frame.index = frame.index + pd.Timedelta(days=int(r.integers(1, 400)))
    elif how == "append":
        frame.loc[frame.index.max() + pd.Timedelta(days=1)] = frame.iloc[0].to_numpy()
    else:
        f = frame.iloc[:, :].copy()
        f.iloc[:, cols] = f.iloc[r.permutation(n), cols].to_numpy()
        return f
    return frame


def edited(case, mon):
    """One frame, changed by its owner between uses: every new indicator must see the present content."""
    r = np.random.default_rng(case["order"])
    o, other = case["edited"]
    frame = gen.deliver(o["data"], o["delivery"])[0]
    frame = frame[[c for c in frame.columns if str(c).lower() in ("open", "high", "low", "close", "volume")]].copy()
    done = []
    for _ in range(case["steps"]):
        x = o if r.random() < 0.7 else other
        copy = frame.copy(deep=True)
        op = str(r.choice(["data", "signal", "value", "sim", "graph"], p=[.5, .2, .1, .15, .05]))
        if r.random() < 0.5:
            got = sig.ask(lib.build(x["ind"], frame, x["params"]), op, frame, frame, 1)
            want = sig.ask(lib.build(x["ind"], copy, x["params"]), op, copy, copy, 1)
        else:
            want = sig.ask(lib.build(x["ind"], copy, x["params"]), op, copy, copy, 1)
            got = sig.ask(lib.build(x["ind"], frame, x["params"]), op, frame, frame, 1)
        mon.ev("answers_on_edited_frames")
        done.append([x["ind"], op])
        if not mon.check(got == want, "an indicator built on a frame edited since its last use does not show its content",
                         indicator=x["ind"], params=x["params"], query=op, history=done[-12:]):
            break
        how = str(r.choice(EDITS))
        done.append(how)
        del copy
        frame = edit(frame, how, r)
    mon.state("edited", o["ind"], other["ind"], o["params"], *[d for d in done if isinstance(d, str)])


def digest(o):
    h = hashlib.sha256()
    for op in ("data", "value", "signal", "sim_tight"):
        h.update(repr(answer(o, op, 0)).encode())
    return h.hexdigest()


def processes(case, mon):
    """The same requests in this (busy) process and, in another order, in a new one with another hash seed."""
    jobs = case["process"]
    here = [digest(o) for o in jobs]
    r = np.random.default_rng(case["order"])
    order = [int(x) for x in r.permutation(len(jobs))]
    e = dict(os.environ, PYTHONHASHSEED=str(case["hash"]))
    code = "import sys, json; sys.path.insert(0, %r); from ttimon.checks import concurrency as c; " \
           "print('DIGESTS ' + json.dumps([c.digest(o) for o in json.load(sys.stdin)]))" % env.VERIF
    out = subprocess.run([sys.executable, "-c", code], input=json.dumps([jobs[i] for i in order]), capture_output=True,
                         text=True, env=e, cwd=env.VERIF, timeout=200)
    lines = [x for x in out.stdout.splitlines() if x.startswith("DIGESTS ")]
    if not mon.check(len(lines) == 1, "a new process fails on requests that work in this one", stderr=out.stderr[-600:]):
        return
    there = json.loads(lines[0][8:])
    for k, i in enumerate(order):
        mon.ev("digests_across_processes")
        mon.check(there[k] == here[i], "a new process gives another result", indicator=jobs[i]["ind"], params=jobs[i]["params"],
                  hash_seed=case["hash"])
    mon.state("process", case["hash"], *[o["ind"] for o in jobs])


# ------------------------------------------------------------------ C02
NC2 = {"quick": 150, "thorough": 2000}


def c02_cases(rng, tier):
    out = []
    for k in range(NC2[tier]):
        u = k % 3
        names = [str(x) for x in rng.choice(sp.NAMES, 8)]
        if u == 1:
            names = [names[0]] * 8
        elif u == 2:
            names = names[:4] * 2
        objs = []
        for nm in names:
            objs.append({"ind": nm, "params": sp.SPECS[nm].sample(rng, big=25)})
        n = max(sp.SPECS[o["ind"]].need(o["params"]) for o in objs) + int(rng.integers(5, 60))
        out.append({"objects": objs, "data": gen.sample(rng, n), "delivery": gen.sample_delivery(rng, 0.4),
                    "switch": float(rng.choice([1e-6, 5e-6, 2e-5, 5e-5])), "same": bool(rng.random() < 0.3),
                    "close": bool(rng.random() < 0.5), "delay": int(rng.integers(1 << 30)), "repeat": 3})
    return out


def work(o, frame, ind=None):
    x = ind if ind is not None else lib.build(o["ind"], frame, o["params"])
    d = x.getTiData()
    return (d.to_numpy(dtype=float).tobytes(), tuple(d.columns), d.index.asi8.tobytes(), repr(x.getTiValue()), x.getTiSignal(),
            repr(x.getTiValue(str(d.index[len(d) // 2])) if len(d) else None))


class Switcher:
    """Yields the interpreter to other threads at random lines of the library, and counts the observed switches."""

    def __init__(self, seed, rate=0.02):
        self.r = np.random.default_rng(seed)
        self.coin = (self.r.random(4096) < rate).tolist()
        self.i, self.last, self.switches, self.lines = 0, None, 0, 0

    def trace(self, frame, event, arg):
        if (os.sep + "tti" + os.sep) not in frame.f_code.co_filename:
            return None
        return self.line

    def line(self, frame, event, arg):
        me = threading.get_ident()
        self.lines += 1
        if self.last != me:
            self.switches += 1
            self.last = me
        self.i = (self.i + 1) & 4095
        if self.coin[self.i]:
            import time
            time.sleep(0)
        return self.line


def c02(case, mon):
    frame, canon = gen.deliver(case["data"], case["delivery"])
    objs = case["objects"]
    expected = [work(o, frame.copy(deep=True)) for o in objs]
    shot = lib.shot(frame)
    shared = lib.build(objs[0]["ind"], frame, objs[0]["params"]) if case["same"] else None
    sw = Switcher(case["delay"])
    old = sys.getswitchinterval()
    results = [[] for _ in objs]
    gate = threading.Barrier(len(objs))

    def body(k):
        try:
            sys.settrace(sw.trace)
            gate.wait(20)
            for j in range(case["repeat"]):
                if shared is not None and k % 2 and objs[k] == objs[0]:
                    results[k].append(work(objs[k], frame, shared))
                else:
                    results[k].append(work(objs[k], frame))
        except Exception as e:
            results[k].append("%s: %s" % (type(e).__name__, str(e)[:150]))
        finally:
            sys.settrace(None)
    sys.setswitchinterval(case["switch"])
    try:
        ts = [threading.Thread(target=body, args=(k,)) for k in range(len(objs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        mon.fail("concurrent calculations do not terminate", indicators=[o["ind"] for o in objs])
        return
    mon.ev("thread_switches_inside_the_library", sw.switches)
    mon.ev("library_lines", sw.lines)
    for k, o in enumerate(objs):
        for x in results[k]:
            mon.ev("concurrent_answers")
            if not mon.check(x == expected[k], "a concurrent calculation differs from the sequential one", indicator=o["ind"],
                             params=o["params"], others=[q["ind"] for q in objs], got=x if isinstance(x, str) else "values"):
                break
    mon.check(lib.shot(frame) == shot, "concurrent calculations changed the shared frame", indicators=[o["ind"] for o in objs])
    mon.state(*[o["ind"] for o in objs], case["switch"], sw.switches)


# ------------------------------------------------------------------ C03
NC3 = {"quick": 260, "thorough": 4200}
OPTIONS = ("display.precision", "display.max_rows", "display.max_columns", "display.width", "display.float_format",
           "display.max_colwidth", "display.expand_frame_repr", "display.show_dimensions", "display.min_rows",
           "display.date_dayfirst", "display.date_yearfirst", "mode.chained_assignment", "mode.copy_on_write", "mode.sim_interactive",
           "compute.use_bottleneck", "compute.use_numexpr", "compute.use_numba", "future.infer_string", "plotting.backend",
           "future.no_silent_downcasting", "plotting.matplotlib.register_converters", "mode.string_storage")


def c03_cases(rng, tier):
    out = []
    for k in range(NC3[tier]):
        name = sp.NAMES[k % len(sp.NAMES)]
        o = pick(rng, name)
        ops = [str(x) for x in rng.choice(STEPS + ("graph", "sim", "sim_stop") + NOISE, int(rng.integers(3, 9)))]
        out.append({"object": o, "ops": ops, "order": int(rng.integers(1 << 30)), "flat": bool(rng.random() < 0.3)})
    return out


def settings():
    """What the process shares with the library, in comparable form."""
    import decimal, gc, locale, logging, random, signal, warnings  # noqa: E401
    import matplotlib
    out = {"matplotlib rcParams": repr(sorted((k, repr(v)) for k, v in matplotlib.rcParams.items() if k != "backend")),
           "matplotlib backend": matplotlib.get_backend(), "interactive": matplotlib.is_interactive(),
           "numpy error state": repr(np.geterr()), "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
           "numpy random state": repr(np.random.get_state(legacy=False)), "random state": hash(random.getstate()),
           "warning filters": repr(warnings.filters), "warnings": repr(warnings.showwarning), "decimal": repr(decimal.getcontext()),
           "locale": locale.setlocale(locale.LC_ALL), "environment": repr(sorted(os.environ.items())), "directory": os.getcwd(),
           "sys.path": repr(sys.path), "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
           "streams": repr((id(sys.stdout), id(sys.stderr), id(sys.stdin))), "hooks": repr((sys.excepthook, sys.displayhook, sys.gettrace())),
           "collector": repr((gc.isenabled(), gc.get_threshold())), "threads": threading.active_count(),
           "logging": repr((logging.root.level, logging.root.handlers, logging.root.manager.disable)),
           "signals": repr([signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)])}
    umask = os.umask(0o22)
    os.umask(umask)
    out["umask"] = umask
    for k in OPTIONS:
        try:
            out["pandas " + k] = repr(pd.get_option(k))
        except Exception:
            pass
    out["descriptors"] = len(os.listdir("/proc/self/fd"))
    return out


def c03(case, mon):
    import contextlib, gc, io, shutil, tempfile, warnings, weakref  # noqa: E401
    import matplotlib.pyplot as plt
    warm_up()
    o = case["object"]
    r = np.random.default_rng(case["order"])
    top, home = tempfile.mkdtemp(prefix="tti_c03_"), os.getcwd()
    said = io.StringIO()
    plt.close("all")
    own, _ = plt.subplots()
    own.gca().plot([1, 2, 3])
    mine = len(own.gca().lines)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(said):
            os.chdir(top)
            np.random.seed(case["order"] & 0xffff)
            if case["flat"]:
                np.seterr(divide="warn", invalid="warn")
            before, figures = settings(), 1
            held = c03_use(case, o, r, mon, before, figures, own, mine, said, top)
            plt.close("all")
            if held is None:
                return
            gc.collect()
            mon.ev("released", sum(w() is None for w, _k in held))
            for w, kind in held:
                if not mon.check(w() is None, "what the caller dropped is kept alive", kind=kind, indicator=o["ind"],
                                 params=o["params"], history=case["ops"]):
                    break
    finally:
        plt.close("all")
        os.chdir(home)
        shutil.rmtree(top, ignore_errors=True)
    mon.state(o["ind"], ",".join(case["ops"]))


WARM = []


def warm_up():
    """First uses import modules, open caches and register converters."""
    if WARM:
        return
    import matplotlib.pyplot as plt
    d = pd.DataFrame({"close": np.arange(1.0, 41.0)}, index=pd.date_range("2020-01-01", periods=40))
    x = lib.build("MovingAverage", d, {"period": 3})
    x.getTiSignal(), x.getTiGraph(), x.getTiValue("2020-01-05")
    lib.simulate(x, d)
    plt.figure().canvas.draw()
    plt.close("all")
    WARM.append(1)


def c03_use(case, o, r, mon, before, figures, own, mine, said, top):
    """Runs the operations; every single one must leave everything outside the library as it was."""
    import weakref
    import matplotlib.pyplot as plt
    frame, canon = gen.deliver(o["data"], o["delivery"])
    held = [(weakref.ref(frame), "input data")]
    ctx = dict(indicator=o["ind"], params=o["params"], history=case["ops"])
    ind = None
    for step, op in enumerate(["build"] + case["ops"]):
        drawn = 0
        if op == "build":
            ind = lib.build(o["ind"], frame, o["params"])
            held.append((weakref.ref(ind), "indicator"))
        elif op in NOISE:
            noise(op, o, frame)
        elif op == "graph":
            drawn = 1
            ind.getTiGraph()
        elif op in ("sim", "sim_tight"):
            drawn = 1
            rec = ind.getTiSimulation(frame, max_exposure=None if op == "sim" else float(2.2 * canon["close"].mean()))[0]
            held.append((weakref.ref(rec), "simulation record"))
            del rec
        elif op == "sim_stop":
            days = int(r.integers(0, len(canon)))
            cls = type(ind)
            stop = type(cls.__name__, (cls,), {"getTiSignal": stopper(days)})(frame, **o["params"])
            held.append((weakref.ref(stop), "indicator of an interrupted simulation"))
            try:
                stop.getTiSimulation(frame)
                drawn = 1
            except ZeroDivisionError:
                mon.ev("interrupted")
            del stop
        elif op == "sim_bad":
            try:
                ind.getTiSimulation(frame, short_exposure_factor=0.5)
            except Exception:
                mon.ev("refused")
        else:
            sig.ask(ind, op, frame, canon, int(r.integers(1 << 20)))
        mon.ev("did:" + op)
        figures += drawn
        now = settings()
        mon.ev("settings_compared", len(now))
        changed = [k for k in now if now[k] != before.get(k)]
        ok = mon.check(not changed, "using the library changed a process-wide setting", operation=op, step=step, changed=changed[:4],
                       was=[str(before.get(k))[:160] for k in changed[:2]], now=[str(now[k])[:160] for k in changed[:2]], **ctx)
        ok &= mon.check(len(plt.get_fignums()) == figures, "number of open figures is not that of the graphs asked for", operation=op,
                        step=step, figures=len(plt.get_fignums()), expected=figures, **ctx)
        ok &= mon.check(plt.fignum_exists(own.number) and len(own.axes) == 1 and len(own.axes[0].lines) == mine and
                        own.axes[0].get_title() == "" and own._suptitle is None, "a figure of the caller was changed or closed",
                        operation=op, step=step, **ctx)
        ok &= mon.check(said.getvalue() == "", "something was printed", operation=op, step=step, printed=said.getvalue()[:80], **ctx)
        files = sorted(os.listdir(top))
        ok &= mon.check(not files, "files were left in the working directory", operation=op, step=step, files=files[:4], **ctx)
        if not ok:
            return None
    return held


def stopper(days):
    def getTiSignal(self):
        if len(self.getTiData()) > days:
            raise ZeroDivisionError("interrupted by the harness")
        return ("hold", 0)
    return getTiSignal


CHECKS = {
    "C03": Check("C03", c03_cases, c03,
                 "A case uses one indicator through 4-9 operations, many failing, and compares everything the process shares with "
                 "the library after each. Distinct: (indicator, operations).",
                 need=("settings_compared", "released", "interrupted", "refused", "did:graph", "did:sim", "did:fill"), assumptions=A),
    "C01": Check("C01", c01_cases, c01,
                 "A case interleaves the use of 2-5 indicators with unrelated and failing activity and compares each answer "
                 "with the isolated one, or compares digests with a new process. Distinct: (indicators, sharing, steps).",
                 need=("answers", "answers_on_edited_frames", "unrelated:failed", "unrelated:done", "digests_across_processes"), assumptions=A),
    "C02": Check("C02", c02_cases, c02,
                 "A case runs 8 threads on one frame. Distinct: (indicators, switch interval, observed thread switches inside "
                 "library lines), i.e. distinct schedules.",
                 need=("concurrent_answers", "thread_switches_inside_the_library"), assumptions=A + ["CPython with the GIL"]),
}
