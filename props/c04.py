"""C04: conditional sampling keeps fixed spins fixed and the rest follows the conditional law."""
import numpy as np

from dst.core import HarnessError
from . import kit
from .common import (boltzmann, calc_e_for, check_sample, chi2_pvalue, digest, e_ising, e_triplet, metropolis_gap_iters,
                     py_calc_e, require, rngof)

N_RUNS = {"quick": 520, "thorough": 6000}
PMIN = 1e-9


def gen(seed, tier, i):
    r = rngof("C04", seed, i)
    kind = r.choice(["metro_boost"] * 5 + ["metro_py"] * 2 + ["metro_triplet"])
    sp = kit.space(kind)
    native = kind == "metro_boost"
    how = r.choice(("seq", "par")) if native else "seq"
    systematic = r.random() < .4
    for _ in range(80):
        n = r.choice((2, 3, 4, 5, 6, 7, 9, 12, 17, 24) if native else (3, 4, 5, 6, 8) if sp == "ising" else (3, 4, 5))
        k = r.randrange(max(1, n - 4), n)
        ix = sorted(r.sample(range(n), k))
        fixed = [[j, r.choice((-1, 1))] for j in ix]
        th = kit.THETA[sp](r, n, r.choice((.6, 1.)) if n < 8 else r.choice((.3, .5)))
        it = metropolis_gap_iters(sp, n, th, eps=1e-3, fixed=dict(map(tuple, fixed)), systematic=systematic,
                                  cap=500 if native else 60)
        if it <= (500 if native else 60):
            break
    else:
        raise HarnessError("no mixing parameters found")
    nf = n - k
    it = max(it, nf)
    calls = []
    mode = r.choice(("law", "law", "burst", "shape"))
    N = 20000 if native else 2000
    if mode == "burst":
        N = 2400 if native else 300
    cpu = r.choice((1, 2, 3, 4, 8))
    sizes = None
    if mode == "shape":
        sizes = [r.choice((1, 2, 3, cpu - 1 or 1, cpu, cpu + 1, 2 * cpu + 1, 11)) for _ in range(r.choice((2, 3, 4)))]
        it = r.choice((1, it))
    return {"kind": kind, "cpu": cpu, "n": n, "theta": th, "fixed": fixed, "n_iters": it, "burn_in": 2 * it, "N": N, "how": how,
            "mode": mode, "sizes": sizes, "systematic": systematic, "rng_seed": r.randrange(2 ** 31),
            "init": (not native) and r.random() < .3}


def run(scn, sim):
    from coniii import samplers
    kind, n = scn["kind"], scn["n"]
    sp = kit.space(kind)
    rng = np.random.RandomState(scn["rng_seed"])
    th = np.array(scn["theta"])
    fixed = [tuple(x) for x in scn["fixed"]]
    nf = n - len(fixed)
    kw = dict(n_iters=scn["n_iters"], burn_in=scn["burn_in"], systematic_iter=scn["systematic"])
    if kind == "metro_boost":
        s = samplers.Metropolis(n, th, rng=rng, iprint=False)
        kw["parallel"] = scn["how"] == "par"
    else:
        s = samplers.Metropolis(n, th, calc_e_for(sp), rng=rng, boost=False, iprint=False)
    efn = {"ising": e_ising, "triplet": e_triplet}[sp]
    sim.log_on = False
    ref = np.random.RandomState(scn["rng_seed"] + 1)

    def call(size):
        before = list(fixed)
        init = None
        if scn["init"]:
            init = ref.choice([-1, 1], size=(size, nf))
            kw["initial_sample"] = init
            keep = init.copy()
        s.generate_cond_sample(size, fixed, **kw)
        x = s.sample
        check_sample(x, size, n, sp, f"conditional sample with {fixed}")
        for j, v in before:
            require((x[:, j] == v).all(), "fixed-spin-changed",
                    lambda: f"spin {j} was fixed at {v} but the draws have {x[:, j].tolist()[:20]}")
        require(fixed == before, "fixed-subset-mutated", f"{before} became {fixed}")
        if init is not None:
            require(np.array_equal(init, keep), "initial-sample-mutated", "the supplied initial sample was overwritten")
        if kind != "metro_boost":
            E = np.ravel(np.array(s.E, dtype=float))
            require(E.shape == (size,), "wrong-energy-shape", f"{E.shape} energies for {size} draws")
            want = np.array([efn(row.tolist(), scn["theta"]) for row in x])
            require(np.allclose(E, want, atol=1e-8), "wrong-energy",
                    lambda: f"energies {E[:5]} reported, full configurations have {want[:5]}")
        sim.count("draws", size)
        return x.copy()

    if scn["mode"] == "shape":
        xs = [call(k) for k in scn["sizes"]]
        sim.log_on = True
        return {"digest": digest(xs), "key": ("shape", kind, n, tuple(j for j, _ in fixed))}
    if scn["mode"] == "burst":
        per = sim.cpu_count if scn["how"] == "par" else 1
        if kind != "metro_boost":
            kw["n_iters"] = nf
        # the first draw of each call only: independent calls, so burn-in alone decides its law
        x = np.vstack([call(per) for _ in range(scn["N"] // per)])
    else:
        x = call(scn["N"])
    sim.log_on = True
    p = boltzmann(sp, n, scn["theta"], fixed=dict(fixed))
    pv, stat, odd = chi2_pvalue(x, p)
    require(pv > PMIN, "wrong-conditional-distribution",
            lambda: f"{len(x)} draws of {kind} ({scn['how']}, systematic={scn['systematic']}, mode={scn['mode']}) given "
                    f"{fixed} do not follow the conditional law: chi2={stat:.1f} p={pv:.2g} {odd or ''}")
    return {"digest": digest(x), "key": (scn["mode"], kind, n, tuple(j for j, _ in fixed), scn["systematic"], scn["how"])}
