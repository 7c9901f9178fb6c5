"""Stub against the real pool: the same histories with multiprocess's own pool (real processes) and with the simulated one.

    /opt/venv/bin/python tools/poolcheck.py [N]        builds /repo's tree in a scratch directory, prints what differs

Not a registered check: real processes are not under the simulator's control.  It supports the claim that the simulated pool gives the
package what the real one gives it (same order, same results, same generator afterwards, same failures)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def cases(n):
    from props import c01
    for i in range(n):
        scn = c01.gen(77, "quick", i)
        if scn["kind"] != "rmf":
            yield i, scn


def child(mode, n):
    sys.path.insert(0, os.environ["DST_TREE"])
    import warnings
    warnings.filterwarnings("ignore")
    from dst import seams
    from dst.core import Sim
    if mode == "sim":
        seams.install()
    import numpy as np
    np.seterr(all="ignore")
    from props import c01, kit
    from props.common import digest, rng_state
    real_count = os.cpu_count
    import multiprocess
    import multiprocessing
    for i, scn in cases(n):
        def go():
            rng = np.random.RandomState(scn["rng_seed"])
            if scn["kind"] == "mch":
                return [digest(c01.solver_run(scn, rng)), repr(rng_state(rng))]
            obj, out = kit.make(scn["cfg"], rng), []
            for op in scn["ops"]:
                try:
                    out.append(digest(kit.apply(obj, scn["cfg"], op)))
                except AssertionError as e:
                    out.append("refused: " + str(e))
                g = kit.object_rng(obj)
                out.append(None if g is None else digest(repr(rng_state(g))))
            return out
        err, sys.stdout = sys.stdout, open(os.devnull, "w")
        try:
            if mode == "sim":
                s = Sim(i)
                s.cpu_count = scn["cpu"]
                with seams.activate(s):
                    res = go()
            else:
                count = lambda: scn["cpu"]      # noqa: E731
                os.cpu_count = multiprocess.cpu_count = multiprocessing.cpu_count = count
                multiprocess.context.BaseContext.cpu_count = lambda self: scn["cpu"]
                res = go()
        finally:
            sys.stdout = err
            os.cpu_count = real_count
        print(json.dumps([i, scn["kind"], res]), flush=True)


def main(n):
    from dst import build
    d = tempfile.mkdtemp(prefix="poolcheck")
    try:
        env = dict(os.environ, DST_TREE=build.build(d), PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", PYTHONPATH=HERE,
                   NUMBA_CACHE_DIR=d)
        got = {}
        for mode in ("real", "sim"):
            r = subprocess.run([sys.executable, os.path.abspath(__file__), "--" + mode, str(n)], env=env, cwd=d, text=True,
                               stdout=subprocess.PIPE, timeout=3000)
            got[mode] = {x[0]: x[1:] for x in map(json.loads, r.stdout.splitlines())}
            if r.returncode:
                print(mode, "ended with", r.returncode)
        bad = [i for i in got["real"] if got["real"][i] != got["sim"].get(i)]
        for i in bad:
            print("differs:", i, got["real"][i], got["sim"].get(i))
        kinds = sorted({v[0] for v in got["real"].values()})
        print(f"{len(got['real'])} histories with real processes, {len(bad)} differ from the simulated pool; kinds {kinds}")
        return 1 if bad else 0
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] in ("--real", "--sim"):
        child(sys.argv[1][2:], int(sys.argv[2]))
    else:
        sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 120))
