"""C12: a checkpoint taken at any point resumes exactly, does not disturb the original and shares nothing with it.

One life of an object is simulated three times: undisturbed (twin), checkpointed (original), and restored from the checkpoint
under another schedule, pid, clock, entropy and ambient generator; the calls of original and restored object interleave as the
scheduler decides.  Some runs restore in a really fresh interpreter."""
import io
import json
import os
import pickle
import subprocess
import sys
import tempfile

import dill
import numpy as np

from dst.core import HarnessError, InjectedFault, Violation
from . import eqn, kit
from .common import canon, digest, require, rng_state, rngof

N_RUNS = {"quick": 420, "thorough": 6000}
KINDS = ("metro_boost", "potts_boost", "metro_py", "model_ising", "wolff", "potts_py", "model_potts", "pt", "metro_triplet",
         "model_ising_py", "lattice", "model_potts_py", "model_triplet")
PICKLES = ("metro_boost", "potts_boost", "wolff", "lattice")
FAULTS = ("fork_eagain", "worker_oserror", "worker_late_error", "interrupt")


def gen(seed, tier, i):
    r = rngof("C12", seed, i)
    kind = KINDS[i % len(KINDS)]
    cpu = r.choice((1, 2, 3, 4))
    if kind in ("potts_boost", "model_potts"):
        cpu = max(cpu, 3)
    sp = kit.space(kind)
    n = None if kind in ("lattice", "pt") else r.choice((3, 4)) if sp != "ising" else r.choice((3, 4, 5))
    cfg = kit.gen_cfg(r, kind, n)
    scn = {"cfg": cfg, "cpu": cpu, "rng_seed": r.randrange(2 ** 31),
           "how": "pickle" if kind in PICKLES and r.random() < .5 else "dill",
           "before": [kit.gen_op(r, cfg, cpu) for _ in range(r.choice((0, 1, 2, 4)))],
           "after": [kit.gen_op(r, cfg, cpu) for _ in range(r.choice((1, 2, 3) if kind != "pt" else (1, 2)))],
           "again": r.random() < .3}
    if i % 4 == 2 and kind not in ("lattice",):
        scn["rates"] = {r.choice(FAULTS): r.choice((.2, .5))}
    if i % (60 if tier == "quick" else 150) == 17:
        scn["process"] = True
    return scn


def save(how, obj):
    return (dill if how == "dill" else pickle).dumps(obj)


def load(how, data):
    return (dill if how == "dill" else pickle).loads(data)


def arrays(obj, depth=0, seen=None, path="obj"):
    """Every array reachable through the object's attributes, with its address range (to detect shared memory)."""
    seen = {} if seen is None else seen
    if id(obj) in seen or depth > 5:
        return seen
    if isinstance(obj, np.ndarray):
        seen[id(obj)] = (path, obj)
    elif isinstance(obj, np.random.RandomState):
        seen[id(obj)] = (path, obj)
    elif isinstance(obj, (list, tuple)):
        for k, v in enumerate(obj):
            arrays(v, depth + 1, seen, f"{path}[{k}]")
    elif isinstance(obj, dict):
        for k, v in obj.items():
            arrays(v, depth + 1, seen, f"{path}[{k!r}]")
    elif hasattr(obj, "__dict__") and type(obj).__module__.startswith("coniii"):
        seen[id(obj)] = (path, None)
        for k, v in vars(obj).items():
            arrays(v, depth + 1, seen, f"{path}.{k}")
    return seen


def share_nothing(a, b, what):
    A, B = arrays(a), arrays(b)
    for i, (pa, x) in A.items():
        require(i not in B, "shared-state", lambda: f"{what}: {pa} of the original is {B[i][0]} of the restored object")
        if isinstance(x, np.ndarray) and x.size:
            for pb, y in B.values():
                if isinstance(y, np.ndarray) and y.size and np.may_share_memory(x, y) and np.shares_memory(x, y):
                    raise Violation("shared-state", f"{what}: {pa} of the original and {pb} of the restored object share memory")


def remembered(a, b, what):
    """What the object shows of its past calls (its last sample, its parameters) comes back too."""
    for name in ("sample", "multipliers", "theta", "E", "trajectory"):
        x, y = getattr(a, name, None), getattr(b, name, None)
        if isinstance(x, np.ndarray):
            require(canon(x) == canon(y), "remembered-differs", lambda: f"{what}: {name} was {x.tolist()} and is {y!r}"[:600])


def result(obj, cfg, op):
    out = kit.apply(obj, cfg, op)
    rng = kit.object_rng(obj)
    return digest(out), None if rng is None else rng_state(rng)


def run(scn, sim):
    eqn.ensure()
    cfg, how = scn["cfg"], scn["how"]
    kind = cfg["kind"]
    faulty = bool(scn.get("rates"))

    def build():
        return kit.make(cfg, np.random.RandomState(scn["rng_seed"]))
    orig = build()
    for op in scn["before"]:
        sim.armed = faulty
        try:
            kit.apply(orig, cfg, op)
        except InjectedFault:
            sim.probe("failed_call_before_checkpoint")
        finally:
            sim.armed = False
    data = save(how, orig)
    sim.probe("checkpoint")
    ops = scn["after"]
    if scn.get("process"):
        return in_fresh_process(scn, sim, orig, data)
    rest = load(how, data)
    if scn["again"]:
        rest = load(how, save(how, rest))
        sim.probe("checkpoint_of_restored")
    share_nothing(orig, rest, "right after restoring")
    remembered(orig, rest, "right after restoring")
    res = {"orig": [], "rest": []}
    objs = {"orig": orig, "rest": rest}
    while len(res["orig"]) < len(ops) or len(res["rest"]) < len(ops):
        who = ("orig", "rest")[sim.decide("who", 2)]
        if len(res[who]) == len(ops):
            who = "rest" if who == "orig" else "orig"
        k = len(res[who])
        if who == "rest":                       # another machine
            sim.pid += 1000
            sim.now += 12345.
            np.random.rand()
        res[who].append(result(objs[who], cfg, ops[k]))
    for k, op in enumerate(ops):
        require(res["orig"][k][0] == res["rest"][k][0], "resumed-differs",
                f"call {k} {op} after restoring gives another result than the original ({how})")
        require(res["orig"][k][1] == res["rest"][k][1], "resumed-generator-differs",
                f"call {k} {op} after restoring leaves the generator elsewhere than the original ({how})")
    share_nothing(orig, rest, "after carrying on")
    if not faulty:
        twin = build()
        quiet, sim.quiet = sim.quiet, True
        try:
            for op in scn["before"]:
                kit.apply(twin, cfg, op)
            tw = [result(twin, cfg, op) for op in ops]
        finally:
            sim.quiet = quiet
        for k, op in enumerate(ops):
            require(tw[k] == res["orig"][k], "checkpoint-disturbed", f"call {k} {op}: the checkpointed object differs from one that "
                    "was never checkpointed")
        sim.probe("equals_undisturbed_twin")
    return {"digest": digest(res["orig"]), "nontrivial": True, "key": (kind, how, scn["rng_seed"])}


def in_fresh_process(scn, sim, orig, data):
    cfg, ops = scn["cfg"], scn["after"]
    d = tempfile.mkdtemp(prefix="ckpt", dir=eqn.scratch_root())
    ck, jf = os.path.join(d, "object"), os.path.join(d, "job.json")
    with open(ck, "wb") as f:
        f.write(data)
    with open(jf, "w") as f:
        json.dump({"cfg": cfg, "ops": ops, "cpu": scn["cpu"], "how": scn["how"], "checkpoint": ck, "seed": 12345}, f)
    try:
        from dst.core import Sim
        from dst import seams
        env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        with seams.outside():
            p = subprocess.run([sys.executable, "-m", "dst.resume", jf], env=env, capture_output=True, text=True, timeout=300)
    finally:
        os.unlink(ck)
        os.unlink(jf)
        os.rmdir(d)
    line = [x for x in p.stdout.splitlines() if x.startswith("RESULT ")]
    if not line:
        raise Violation("not-restorable", f"a fresh process cannot carry on from the checkpoint: {p.stderr[-1500:]}")
    got = json.loads(line[0][7:])
    sim.quiet = True
    want = [digest(kit.apply(orig, cfg, op)) for op in ops]
    sim.quiet = False
    for k, op in enumerate(ops):
        require(got[k] == want[k], "resumed-differs", f"call {k} {op} in a fresh process gives another result than the original")
    sim.probe("restored_in_fresh_process")
    return {"digest": digest(want), "nontrivial": True, "key": ("process", cfg["kind"], scn["rng_seed"])}
