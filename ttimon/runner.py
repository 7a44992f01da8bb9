"""Runs the cases of a check in parallel, collects what the monitors observed, gives the verdict."""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import time
import traceback

from . import env

LEVELS = {"T05": "fault_enumeration"}


class Timeout(BaseException):
    pass


class Mon:
    """Per-case monitor: event counters, states seen, violations."""

    def __init__(self):
        self.events = collections.Counter()
        self.keys = set()
        self.bad = []

    def ev(self, kind, n=1):
        self.events[kind] += int(n)

    def state(self, *key):
        self.keys.add("|".join(str(k) for k in key))

    def fail(self, what, **detail):
        if len(self.bad) < 5:
            self.bad.append({"what": what, "detail": {k: _plain(v) for k, v in detail.items()}})

    def check(self, ok, what, **detail):
        self.ev("checks")
        if not ok:
            self.fail(what, **detail)
        return ok


def _plain(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)[:400]


class Check:
    def __init__(self, pid, cases, run, rule, need=("checks",), assumptions=(), case_timeout=240, procs=8,
                 timeout_is_violation=False):
        self.pid, self.cases, self.run, self.rule, self.need = pid, cases, run, rule, tuple(need)
        self.assumptions, self.case_timeout, self.procs = list(assumptions), case_timeout, procs
        self.timeout_is_violation = timeout_is_violation


def from_library(tb):
    root = os.path.realpath(os.path.join(env.REPO, "tti")) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


_CUR = None


def _alarm(_s, _f):
    raise Timeout()


def _one(job):
    i, case = job
    mon = Mon()
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(_CUR.case_timeout)
    t0 = time.time()
    try:
        _CUR.run(case, mon)
    except Timeout:
        err = "timeout"
        if _CUR.timeout_is_violation:
            mon.fail("the request did not terminate")
            err = None
    except MemoryError:
        err = "memory"
    except Exception as e:
        if from_library(e.__traceback__):
            mon.fail("unexpected exception from the library: %s: %s" % (type(e).__name__, str(e)[:200]),
                     where=traceback.format_exc()[-900:])
        else:
            mon.fail("the library's answer could not be interpreted: %s: %s" % (type(e).__name__, str(e)[:200]),
                     where=traceback.format_exc()[-900:])
    finally:
        signal.alarm(0)
    if "matplotlib.pyplot" in sys.modules:
        sys.modules["matplotlib.pyplot"].close("all")
    keys = [hashlib.md5(k.encode()).hexdigest()[:12] for k in mon.keys]
    return i, dict(mon.events), keys, sorted(mon.keys)[:3], mon.bad, err, time.time() - t0


def _batch(job):
    key, jobs = job
    return key, [_one(j) for j in jobs]


def known(pid):
    """Known findings: lines 'finding: property=<id> match=<substring> <what>'."""
    out = []
    p = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2].strip()
                m = rest.split("::", 1)
                out.append((m[0].strip(), m[-1].strip()))
    return out


def main(check, argv):
    global _CUR
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    _CUR = check
    env.load()
    import numpy as np

    if "--replay" in argv:
        doc = json.load(open(argv[argv.index("--replay") + 1]))
        r = _one((0, doc["case"]))
        print(json.dumps({"case": doc["case"], "violations": r[4], "error": r[5]}, indent=1))
        if r[4]:
            print("VIOLATION property=%s replay=%s" % (check.pid, argv[argv.index("--replay") + 1]))
            return 1
        return 0

    t0 = time.time()
    rng = np.random.default_rng([seed, int(hashlib.md5(check.pid.encode()).hexdigest()[:6], 16),
                                 0 if tier == "quick" else 1])
    jobs = list(enumerate(check.cases(rng, tier)))
    only = os.environ.get("VERIF_ONLY")  # development: cases of one indicator
    if only:
        jobs = [j for j in jobs if any(v == only for v in j[1].values())] or jobs
    byid = dict(jobs)
    order = list(jobs)
    np.random.default_rng(7).shuffle(order)
    cap = float(os.environ.get("VERIF_CAP_S", "420" if tier == "quick" else "3000"))
    edir = os.environ.get("VERIF_EVIDENCE", os.path.join(env.VERIF, "evidence"))
    rdir = os.path.join(edir, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(check.pid + "-"):
            os.unlink(os.path.join(rdir, f))
    events, keys, samples, bad, errs, done = collections.Counter(), set(), [], [], [], 0
    slow = (0, None)
    capped = False
    procs = int(os.environ.get("VERIF_PROCS", min(check.procs, os.cpu_count() or 1)))
    k = max(1, min(16, len(order) // (procs * 8) or 1))
    pending = {a: order[a:a + k] for a in range(0, len(order), k)}
    for attempt in (1, 2):  # cases lost with a worker process that died are repeated one by one
        died = stop = False
        with mp.get_context("fork").Pool(procs) as pool:
            workers, last = {w.pid for w in pool._pool}, time.time()
            it = pool.imap_unordered(_batch, list(pending.items()))
            while True:
                try:
                    key, got = it.next(timeout=max(0.5, min(5.0, cap - (time.time() - t0))))
                except StopIteration:
                    break
                except mp.TimeoutError:
                    capped = stop = time.time() - t0 >= cap
                    died = {w.pid for w in pool._pool} != workers and time.time() - last > 60
                    if stop or died:
                        break
                    continue
                last = time.time()
                pending.pop(key)
                for i, ev, ks, sk, b, err, dt in got:
                    done += 1
                    events.update(ev)
                    keys.update(ks)
                    if dt > slow[0]:
                        slow = (dt, i)
                    if len(samples) < 4 and ks:
                        samples.append({"case": byid[i], "events": ev, "states": sk})
                    if err:
                        errs.append((i, err))
                    for v in b:
                        bad.append((i, v))
                stop = len({x[0] for x in bad}) >= 25
                if stop:
                    break
            pool.terminate()
        if stop or not pending:
            break
        pending = {("one", j[0]): [j] for batch in pending.values() for j in batch}
    if pending and not stop:
        errs += [(batch[0][0], "the process died") for batch in pending.values()]
    kn = known(check.pid)
    unknown, seen = [], {}
    for i, v in bad:
        text = v["what"] + " " + json.dumps(v["detail"])
        hit = [w for m, w in kn if m in text]
        if hit:
            seen[hit[0]] = seen.get(hit[0], 0) + 1
        else:
            unknown.append((i, v))
    for w in seen:
        print("KNOWN-FINDING: property=%s %s" % (check.pid, w))
    paths = []
    for i, v in sorted(unknown, key=lambda x: x[0]):
        p = os.path.join("evidence", "replay", "%s-%d.json" % (check.pid, i))
        if p not in paths and len(paths) < 5:
            paths.append(p)
            json.dump({"property": check.pid, "tier": tier, "seed": seed, "case": byid[i],
                       "violations": [w for j, w in unknown if j == i]},
                      open(os.path.join(rdir, os.path.basename(p)), "w"), indent=1)
    missing = [k for k in check.need if not events.get(k)]
    evd = {
        "property": check.pid, "tier": tier, "seed": seed, "level": LEVELS.get(check.pid, "exploration"),
        "coverage": {
            "evaluations": done, "distinct_nontrivial": len(keys), "rule": check.rule,
            "events_observed": dict(sorted(events.items())), "planned_cases": len(jobs),
            "wall_cap_reached": capped, "slowest_case_s": round(slow[0], 2), "samples": samples,
        },
        "assumptions": check.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(unknown),
    }
    path = os.path.join(edir, check.pid + ".json")
    json.dump(evd, open(path + ".tmp", "w"), indent=1)
    os.replace(path + ".tmp", path)
    print("%s %s seed=%d cases=%d states=%d events=%s wall=%.1fs" % (
        check.pid, tier, seed, done, len(keys), dict(events.most_common(6)), time.time() - t0))
    if unknown:
        for i, v in unknown[:5]:
            print("  case %d: %s %s" % (i, v["what"], json.dumps(v["detail"])[:600]))
        for p in paths[:1]:
            print("VIOLATION property=%s replay=%s" % (check.pid, p))
        return 1
    if errs:
        print("INCONCLUSIVE: %d cases did not finish: %s" % (len(errs), errs[:3]))
        return 2
    if only:
        return 0
    if missing or not done or not keys:
        print("INCONCLUSIVE: nothing observed for %s" % (missing or "any case"))
        return 2
    return 0
