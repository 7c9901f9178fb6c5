"""One OS process that executes simulated runs (many per process) for one property.

modes:  batch <prop> <tier> <seed> <k> <N> <out>     runs with index i % N == k
        replay <file> <out>                          one recorded run
        shrink <file> <out>                          minimise a recorded run
"""
import copy
import faulthandler
import hashlib
import importlib
import io
import json
import os
import contextlib
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TREE = os.environ["DST_TREE"]
sys.path.insert(0, HERE)
sys.path.insert(0, TREE)

from dst import seams                                     # noqa: E402
from dst.core import HarnessError, Sim, SimCrash, Violation  # noqa: E402

clock = time.perf_counter


def load(prop):
    seams.install()
    import numpy as np
    np.seterr(all="ignore")
    mod = importlib.import_module("props." + prop.lower())
    import coniii
    assert coniii.__file__.startswith(TREE), coniii.__file__
    return mod


def in_tree(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(TREE + os.sep):
            return True
        tb = tb.tb_next
    return False


RUN_CPU = float(os.environ.get("DST_RUN_CPU", "150"))


class Stuck(BaseException):
    """One simulated run used up its processor time (two orders of magnitude above the longest run of the unchanged tree)."""


def on_alarm(signum, frame):
    where = []
    for f in list(sys._current_frames().values()) + [frame]:
        while f is not None:
            if f.f_code.co_filename.startswith(TREE + os.sep):
                where.append(f"{os.path.relpath(f.f_code.co_filename, TREE)}:{f.f_lineno} {f.f_code.co_name}")
            f = f.f_back
    raise Stuck(" <- ".join(where[:8]))


def watchdog(seconds=None):
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, RUN_CPU if seconds is None else seconds)


def execute(mod, scn, seed, decisions=None):
    """Run one scenario; returns (sim, info, violation or None)."""
    s = Sim(seed, decisions, rates=scn.get("rates"))
    s.cpu_count = scn.get("cpu", 4)
    info, vio = {}, None
    out = io.StringIO()
    watchdog()
    with seams.activate(s):
        try:
            with contextlib.redirect_stdout(out):
                info = mod.run(scn, s) or {}
            watchdog(0)
        except Stuck as e:
            if not str(e):
                raise HarnessError("the harness itself does not come to an end")
            vio = Violation("no-progress", f"no end after {RUN_CPU:.0f} s of processor time: {e}")
        except Violation as v:
            vio = v
        except HarnessError:
            raise
        except (Exception, SimCrash, KeyboardInterrupt) as e:
            if in_tree(e.__traceback__):
                vio = Violation("unexpected-exception:" + type(e).__name__,
                                f"{e!r} from\n" + "".join(traceback.format_tb(e.__traceback__)[-4:]))
            else:
                if not isinstance(e, (AttributeError, TypeError, ValueError, LookupError)):
                    raise
                # the package returned something the check could not even read
                vio = Violation("malformed-result:" + type(e).__name__,
                                f"{e!r} while reading results\n" + "".join(traceback.format_tb(e.__traceback__)[-3:]))
    return s, info, vio


def scenario(mod, seed, tier, i):
    return mod.gen(seed, tier, i)


def run_seed(seed, i):
    return int(hashlib.sha256(f"{seed}:{i}".encode()).hexdigest()[:12], 16)


def batch(prop, tier, seed, k, N, outfile):
    mod = load(prop)
    n = mod.N_RUNS[tier]
    deadline = clock() + float(os.environ.get("DST_BUDGET", "1e9"))
    idx = os.environ.get("DST_INDICES")
    todo = [int(x) for x in idx.split(",") if x] if idx is not None else range(k, n, N)
    with open(outfile, "w") as f:
        for i in todo:
            if clock() > deadline:
                f.write(json.dumps({"skipped": i}) + "\n")
                continue
            scn = scenario(mod, seed, tier, i)
            rs = run_seed(seed, i)
            f.write(json.dumps({"start": i}) + "\n")
            f.flush()
            t0 = clock()
            s, info, vio = execute(mod, scn, rs)
            rec = {"i": i, "seed": rs, "wall": clock() - t0, "sim_time": s.now, "faults": s.faults,
                   "probes": s.probes, "counters": s.counters, "sig": s.schedule_signature(),
                   "log": s.digest(), "result": info.get("digest"), "events": s.seq,
                   "nontrivial": bool(info.get("nontrivial", True)), "key": info.get("key"),
                   "pool": info.get("pool"), "ndec": len(s.recorded)}
            if vio is not None:
                rec["violation"] = {"cls": vio.cls, "detail": vio.detail[:4000]}
                rec["decisions"] = s.decisions()
                rec["scenario"] = scn
            elif i < 3:
                rec["scenario"] = scn
                rec["sample_events"] = [list(map(str, e)) for e in s.log[:25]]
            f.write(json.dumps(rec, default=str) + "\n")
            f.flush()


def replay(path, outfile):
    rep = json.load(open(path))
    mod = load(rep["property"])
    if "also" in rep and hasattr(mod, "replay_pair"):
        pass
    s, info, vio = execute(mod, rep["scenario"], rep["seed"], rep["decisions"])
    json.dump({"violation": None if vio is None else {"cls": vio.cls, "detail": vio.detail},
               "log": s.digest(), "result": info.get("digest"),
               "trace": [list(map(str, e)) for e in s.log[-200:]]}, open(outfile, "w"), default=str)


def generic_candidates(scn):
    """Smaller scenarios: drop chunks of ops, then shrink integers listed in scn['shrink']."""
    for name, keep in (("ops", 1), ("calls", 1), ("before", 0), ("faulty", 0), ("after", 0), ("callers", 1)):
        ops = scn.get(name)
        if isinstance(ops, list) and len(ops) > keep:
            size = max(1, len(ops) // 2)
            while size >= 1:
                for a in range(0, len(ops), size):
                    c = copy.deepcopy(scn)
                    del c[name][a:a + size]
                    if len(c[name]) >= keep:
                        yield c
                size //= 2
    for key, lo in (scn.get("shrink") or {}).items():
        v = scn.get(key)
        while isinstance(v, int) and v > lo:
            for nv in (lo, lo + (v - lo) // 2, v - 1):
                if nv < v:
                    c = copy.deepcopy(scn)
                    c[key] = nv
                    yield c
            break


def shrink(path, outfile):
    rep = json.load(open(path))
    mod = load(rep["property"])
    cls = rep["violation"]["cls"]
    t_end = clock() + float(os.environ.get("DST_SHRINK_BUDGET", "60"))
    tries = [0]

    def fails(scn, dec):
        tries[0] += 1
        try:
            s, _, v = execute(mod, scn, rep["seed"], dec)
        except Exception:
            return None
        if v is not None and v.cls == cls:
            d = s.decisions()
            while d and d[-1] == 0:
                d.pop()
            return d
        return None

    scn, dec = rep["scenario"], rep["decisions"]
    d = fails(scn, dec)
    if d is not None:
        dec = d
        changed = True
        while changed and clock() < t_end:
            changed = False
            for c in generic_candidates(scn):
                if clock() > t_end:
                    break
                d = fails(c, dec)
                if d is not None:
                    scn, dec, changed = c, d, True
                    break
        # decisions: all-benign, then zero chunks
        for cand in ([],):
            d = fails(scn, cand)
            if d is not None:
                dec = d
        size = max(1, len(dec) // 2)
        while dec and size >= 1 and clock() < t_end:
            a = 0
            while a < len(dec) and clock() < t_end:
                if any(dec[a:a + size]):
                    cand = dec[:a] + [0] * min(size, len(dec) - a) + dec[a + size:]
                    d = fails(scn, cand)
                    if d is not None:
                        dec = d
                a += size
            size //= 2
    watchdog(0)
    json.dump({"scenario": scn, "decisions": dec, "tries": tries[0]}, open(outfile, "w"))


if __name__ == "__main__":
    faulthandler.enable()
    mode = sys.argv[1]
    if mode == "batch":
        batch(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6]), sys.argv[7])
    elif mode == "replay":
        replay(sys.argv[2], sys.argv[3])
    elif mode == "shrink":
        shrink(sys.argv[2], sys.argv[3])
