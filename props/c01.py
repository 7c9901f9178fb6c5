"""C01: same generator state, parameters and calls -> same results, whatever the environment does.

Each run executes one workload twice inside the simulator.  Worker durations, worker choice, process ids, clock,
OS entropy and the process-wide generators differ between the two executions; the processor count does not."""
import numpy as np

from dst.core import Violation
from dst.seams import seed_globals
from . import kit
from .common import digest, require, rng_state, rngof

N_RUNS = {"quick": 260, "thorough": 2600}
KINDS = (["metro_boost"] * 3 + ["metro_py"] * 2 + ["metro_triplet", "potts_boost", "potts_boost", "potts_py", "wolff",
         "wolff", "model_ising", "model_ising", "model_potts", "model_ising_py", "model_triplet", "lattice", "sample_ising"])


def gen(seed, tier, i):
    r = rngof("C01", seed, i)
    cpu = r.choice((1, 2, 3, 4, 5, 8))
    pick = i % 24
    kind = "pt" if pick == 7 else "mch" if pick == 11 else "rmf" if pick == 17 else r.choice(KINDS)
    if kind in ("potts_boost", "model_potts"):
        cpu = max(cpu, 3)
    scn = {"kind": kind, "cpu": cpu, "rng_seed": r.randrange(2 ** 31), "ambient": [r.randrange(2 ** 31), r.randrange(2 ** 31)]}
    if kind in ("mch", "rmf"):
        n = r.choice((3, 4))
        scn.update(n=n, data_seed=r.randrange(2 ** 31), rows=r.choice((20, 40)), size=r.choice((30, 60)),
                   maxiter=r.choice((1, 3)))
        return scn
    scn["cfg"] = kit.gen_cfg(r, kind)
    k = 2 if kind == "pt" else r.choice((1, 2, 3, 4, 5))
    scn["ops"] = [kit.gen_op(r, scn["cfg"], cpu) for _ in range(k)]
    return scn


def solver_run(scn, rng):
    from coniii import solvers
    d = np.random.RandomState(scn["data_seed"])
    data = d.choice([-1, 1], size=(scn["rows"], scn["n"]), p=[.4, .6])
    if scn["kind"] == "mch":
        s = solvers.MCH(data, sample_size=scn["size"], rng=rng, iprint=False, sampler_kw={"iprint": False})
        m, flag, err = s.solve(maxiter=scn["maxiter"], n_iters=8, burn_in=8, full_output=True)
        return {"m": m, "flag": flag, "err": err, "sample": s.model.sample}
    s = solvers.RegularizedMeanField(data, sample_size=scn["size"], rng=rng)
    m = s.solve()
    return {"m": m, "sample": s.model.sample}


def execute(scn, sim, which):
    seed_globals(scn["ambient"][which])
    sim.clock_base += 86400.0 * which + scn["ambient"][which] % 1000
    rng = np.random.RandomState(scn["rng_seed"])
    out = []
    if scn["kind"] in ("mch", "rmf"):
        out.append(digest(solver_run(scn, rng)))
        out.append(rng_state(rng))
        return out
    obj = kit.make(scn["cfg"], rng)
    for op in scn["ops"]:
        res = kit.apply(obj, scn["cfg"], op)
        out.append(digest(res))
        g = kit.object_rng(obj)
        out.append(rng_state(g) if g is not None else None)
    return out


def run(scn, sim):
    a = execute(scn, sim, 0)
    b = execute(scn, sim, 1)
    for j, (x, y) in enumerate(zip(a, b)):
        if x != y:
            what = "result" if j % 2 == 0 else "generator state"
            op = scn["ops"][j // 2] if "ops" in scn else scn["kind"]
            raise Violation("not-reproducible",
                            f"{what} after {op} of {scn['kind']} differs between two executions with the same "
                            f"generator seed: only scheduling, pids, clock, entropy and global generators differ")
    pools = len(sim.pools)
    return {"digest": digest(a), "nontrivial": pools > 0 or scn["kind"] in ("lattice", "wolff"), "key": scn["kind"]}
