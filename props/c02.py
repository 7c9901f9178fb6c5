"""C02: parallel sampling returns exactly the requested draws, each really produced by a worker, from distinct streams."""
import math

import numpy as np

from dst.core import Violation
from dst.seams import seed_globals
from . import kit
from .common import STATES, check_sample, digest, draw, require, rngof

N_RUNS = {"quick": 340, "thorough": 5000}
BITS = 128            # a window of this many (nearly) independent spins never repeats by chance


def small_theta(r, kind, n):
    m = 3 * n if kind == "potts" else n
    k = m + n * (n - 1) // 2 + (math.comb(n, 3) if kind == "triplet" else 0)
    return [draw(r, .15, .4) for _ in range(m)] + [draw(r, .02, .08) for _ in range(k - m)]


def gen(seed, tier, i):
    r = rngof("C02", seed, i)
    kind = r.choice(["metro_boost"] * 4 + ["metro_py"] * 2 + ["metro_triplet", "potts_boost", "potts_boost", "potts_py", "wolff",
                     "model_ising", "model_potts", "model_triplet", "sample_ising"])
    cpu = r.choice((1, 2, 3, 4, 5, 7, 8, 13))
    if kind in ("potts_boost", "model_potts"):
        cpu = max(cpu, 3)
    many = r.random() < .12            # many workers: streams must not be drawn from a small set
    if many:
        cpu = r.choice((48, 64, 100))
    if i % 29 == 11:                   # many cluster-sampling workers from one state
        n = 36
        J = n * (n - 1) // 2
        cfg = {"kind": "wolff", "n": n, "theta": [draw(r, .1, .3) for _ in range(n)] + [draw(r, 0, .01) for _ in range(J)]}
        op = {"op": "wpar", "size": 220, "n_iters": 3 * n, "init": [[r.choice((-1., 1.)) for _ in range(n)]] * 220}
        return {"kind": "wolff", "cpu": r.choice((2, 5, 8)), "cfg": cfg, "ops": [op], "rng_seed": r.randrange(2 ** 31), "bulk": False,
                "apart": True}
    if i % 97 == 23:                   # many replicas at practically one temperature
        return {"kind": "pt", "cpu": r.choice((2, 5)), "n": 48, "replicas": 24, "rng_seed": r.randrange(2 ** 31)}
    if i % 14 == 5:                    # one draw of each of many workers after a long burn-in from one state
        kind, cpu, n = r.choice(("metro_boost", "metro_py", "metro_py", "potts_boost", "potts_py", "metro_triplet")), 48, 16
        if kind == "metro_triplet":
            n = 13
        cfg = {"kind": kind, "n": n, "theta": small_theta(r, kit.space(kind), n)}
        if kind == "potts_boost":
            cfg["ncpu"] = cpu
        op = {"op": "par", "size": cpu if kind != "potts_boost" else cpu + 1, "n_iters": 1 if kind == "metro_triplet" else r.choice((1, 2)),
              "burn_in": 60 * n, "systematic": r.random() < .5}
        if kind not in ("metro_boost", "potts_boost"):
            op["init"] = [[r.choice(STATES[kit.space(kind)]) for _ in range(n)]] * cpu
        return {"kind": kind, "cpu": cpu, "cfg": cfg, "ops": [op], "rng_seed": r.randrange(2 ** 31), "bulk": False,
                "apart": True}
    slow = kind in ("metro_py", "metro_triplet", "potts_py", "model_triplet", "wolff")
    n = r.choice((6, 7) if slow else (6, 7, 9, 12))
    cfg = {"kind": kind, "n": n, "theta": small_theta(r, kit.space(kind), n)}
    if kind == "potts_boost":
        cfg["ncpu"] = r.choice((None, 2, 3, 5))
    if kind.startswith("model"):
        cfg["size"] = cpu + r.choice((1, 5))
    bulk = many or r.random() < .5     # long enough that repeated streams show
    ops = []
    for _ in range(1 if many else r.choice((1, 2, 3))):
        name = r.choice({"metro_boost": ("par", "par", "cond_par"), "wolff": ("wpar",), "sample_ising": ("sample_ising",)}.get(
            kind, ("msample",) if kind.startswith("model") else ("par",)))
        w = math.ceil(BITS / n)
        size = cpu * (w + r.choice((0, 1, 2))) + r.choice((0, 1, cpu - 1)) if bulk else r.choice(
            (1, 2, 3, 7, cpu - 1, cpu, cpu + 1, 2 * cpu - 1, 2 * cpu + 1, 3 * cpu))
        size = max(1, size)
        if slow and not many:
            size = min(size, 150)
        if kind in ("potts_boost", "model_potts"):
            size = max(size, max(cpu, cfg.get("ncpu") or 0) + 1)
        op = {"op": name, "size": size, "n_iters": 4 * n + 1, "burn_in": r.choice((4 * n, 6 * n)), "systematic": r.random() < .3}
        if name == "par" and kind in ("metro_py", "metro_triplet", "potts_py") and r.random() < .6:
            # all workers start from one state: only their random streams tell them apart
            op["init"] = [[r.choice(STATES[kit.space(kind)]) for _ in range(n)]] * cpu
        if name == "cond_par":
            ix = sorted(r.sample(range(n), r.choice((1, 2))))
            op["fixed"] = [[j, r.choice((-1, 1))] for j in ix]
        if name == "wpar":
            op["n_iters"] = 6
            op.pop("systematic")
            op["size"] = min(op["size"], 40)
        if name == "msample":
            op["parallel"] = True
            op.pop("systematic")
        if name == "sample_ising":
            op.update(parallel=True, seed=r.randrange(2 ** 31))
        ops.append(op)
    return {"kind": kind, "cpu": cpu, "cfg": cfg, "ops": ops, "rng_seed": r.randrange(2 ** 31), "bulk": bulk}


def worker_blocks(pools, n):
    """Rows each worker task returned, in task order; None if the results are in no known form."""
    blocks = []
    for p in pools:
        for rec in sorted(p.log, key=lambda x: x["index"]):
            items = rec["value"] if isinstance(rec["value"], list) else [rec["value"]]
            for it in items:
                if isinstance(it, tuple):
                    it = next((x for x in it if getattr(x, "ndim", 0) == 2), None)
                a = np.asarray(it) if it is not None else None
                if a is None or a.ndim not in (1, 2) or a.shape[-1] != n:
                    return None
                blocks.append(np.atleast_2d(a))
    return blocks


def matches(returned, blocks):
    """returned == concatenation, in task order, of contiguous parts, at most one from each block?"""
    cat = np.vstack(blocks)
    if len(cat) >= len(returned) and np.array_equal(cat[:len(returned)], returned):
        return True
    R = [r.tobytes() for r in np.ascontiguousarray(returned.astype(np.int64))]
    reach = {0}
    for b in blocks:
        B = [r.tobytes() for r in np.ascontiguousarray(b.astype(np.int64))]
        new = set(reach)
        for r0 in reach:
            for a in range(len(B)):
                k = 0
                while a + k < len(B) and r0 + k < len(R) and B[a + k] == R[r0 + k]:
                    k += 1
                    new.add(r0 + k)
        reach = new
    return len(R) in reach


def one(scn, sim, check):
    rng = np.random.RandomState(scn["rng_seed"])
    cfg, n = scn["cfg"], scn["cfg"]["n"]
    sp = kit.space(scn["kind"])
    obj = kit.make(cfg, rng)
    results = []
    for j, op in enumerate(scn["ops"]):
        first = len(sim.pools)
        s = kit.apply(obj, cfg, op)["sample"]
        if scn["kind"] == "wolff":
            require(np.array_equal(s, np.round(s)), "sample-not-integer", str(s[:2]))
            s = s.astype(int)
        results.append(s)
        if not check:
            continue
        check_sample(s, op["size"], n, sp, f"{op['op']} with {scn['cpu']} processors")
        blocks = worker_blocks(sim.pools[first:], n)
        if blocks:
            require(matches(s, blocks), "draws-not-from-workers",
                    lambda: f"{op}: the {len(s)} rows returned are not what the {len(blocks)} worker tasks "
                            f"(rows {[len(b) for b in blocks]}) produced, in order")
            if len({len(b) for b in blocks}) > 1:
                sim.probe("uneven_blocks")
            if sum(map(len, blocks)) > len(s):
                sim.probe("truncated_surplus")
        if op["size"] < scn["cpu"]:
            sim.probe("fewer_draws_than_processors")
    return results


def replicas(scn, sim):
    """Tempering replicas start and move independently: no two of 24 configurations of 48 spins agree."""
    from coniii.samplers import ParallelTempering
    n = scn["n"]
    theta = np.zeros(n + n * (n - 1) // 2)
    theta[:n] = .05
    pt = ParallelTempering(n, theta, lambda s, th: -(s @ th[:s.shape[1]]), scn["replicas"], Tbds=(1., 1.001), replica_burnin=4 * n,
                           rng=np.random.RandomState(scn["rng_seed"]))
    s = np.array([np.asarray(x.sample).ravel() for x in pt.replicas])
    require(s.shape == (scn["replicas"], n), "replica-shape", str(s.shape))
    d = (s[:, None] != s[None]).sum(2) + n * np.eye(len(s), dtype=int)
    i, j = divmod(int(d.argmin()), len(s))
    require(d.min() > 3, "workers-coalesce", lambda: f"replicas {i} and {j} of {len(s)} differ in {d.min()} of {n} spins after "
            "independent random starts and runs")
    sim.probe("replicas_apart")
    return {"digest": digest(s), "nontrivial": True, "key": "pt"}


def run(scn, sim):
    if scn["kind"] == "pt":
        return replicas(scn, sim)
    res = one(scn, sim, True)
    n = scn["cfg"]["n"]
    # distinct streams: no window of BITS spins may occur twice, within or across workers and calls
    if scn["bulk"] and scn["kind"] != "sample_ising" or len(scn["ops"]) == 1:
        nfree = n - max(len(op.get("fixed", ())) for op in scn["ops"])
        w = math.ceil(BITS / nfree)
        seen = {}
        for c, s in enumerate(res):
            a = np.ascontiguousarray(s.astype(np.int8))
            for k in range(len(a) - w + 1):
                key = a[k:k + w].tobytes()
                if key in seen:
                    raise Violation("repeated-stream", f"rows {k}..{k + w - 1} of call {c} equal rows starting at "
                                    f"{seen[key][1]} of call {seen[key][0]}: two workers or calls share a random stream")
                seen[key] = (c, k)
        sim.count("windows", len(seen))
    if scn.get("apart"):
        # n weakly coupled spins each: that half of the workers end up within one or two flips of one state cannot happen by chance
        s = res[0]
        d = (s[:, None, :] != s[None, :, :]).sum(2)
        if scn["kind"] == "wolff":
            require(int((d == 0).sum()) == len(s), "workers-coalesce", lambda: f"{int((d == 0).sum() - len(s)) // 2} pairs of "
                    f"{len(s)} draws of {n} spins from one start are equal after {scn['ops'][0]['n_iters']} random steps of their own")
        near = int((d <= scn["ops"][0]["n_iters"]).sum(1).max())
        require(scn["kind"] == "wolff" or 2 * near < len(s), "workers-coalesce", lambda: f"{near} of {len(s)} workers are within {scn['ops'][0]['n_iters']} "
                f"spins of one state after {scn['ops'][0]['burn_in']} steps of their own: {s.tolist()[:6]}")
        sim.probe("workers_apart")
    # the same workers one after the other: undisturbed schedule gives the same draws
    saved, sim.quiet = sim.quiet, True
    seed_globals(scn["rng_seed"] ^ 0x5bd1)
    try:
        ser = one(scn, sim, False)
    finally:
        sim.quiet = saved
    for c, (a, b) in enumerate(zip(res, ser)):
        require(np.array_equal(a, b), "parallel-differs-from-serial",
                f"call {scn['ops'][c]}: draws under this schedule differ from those of the workers run one by one")
    return {"digest": digest(res), "nontrivial": scn["cpu"] > 1, "key": scn["kind"]}
