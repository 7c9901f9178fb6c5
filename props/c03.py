"""C03: draws of every sampler follow exp(-energy)/Z.  Whole (small) state space, chi-square at p < 1e-9."""
import itertools

import numpy as np

from dst.core import HarnessError
from . import kit
from .common import (boltzmann, calc_e_for, check_sample, chi2_pvalue, digest, draw, metropolis_gap_iters, py_calc_e, require,
                     rngof)

N_RUNS = {"quick": 330, "thorough": 5000}
PMIN = 1e-9
DTYPES = ("float64", "float64", "float32", "int64", "int32", "strided", "reversed", "bigendian", "column", "readonly",
          "longdouble")


def theta_as(vals, dtype):
    a = np.array(vals, dtype=float)
    if dtype == "float32":
        return a.astype(np.float32)
    if dtype in ("int64", "int32"):
        return a.astype(dtype)
    if dtype == "strided":
        b = np.full(3 * len(a), 7.5)
        b[::3] = a
        return b[::3]
    if dtype == "reversed":
        return a[::-1].copy()[::-1]
    if dtype == "bigendian":
        return a.astype(">f8")
    if dtype == "column":
        b = np.full((len(a), 2), -3.25)
        b[:, 0] = a
        return b[:, 0]
    if dtype == "readonly":
        a.setflags(write=False)
        return a
    if dtype == "longdouble":
        return a.astype(np.longdouble)
    return a


def pick_theta(r, sp, n, regime, dtype):
    m = 3 * n if sp == "potts" else n
    if dtype.startswith("int"):
        th = [r.choice((-1, 1)) for _ in kit.THETA[sp](r, n)]
        if sp != "ising" or n > 3:
            th = [t if i < m or r.random() < .3 else 0 for i, t in enumerate(th)]
        return th
    if regime == "strong":
        th = kit.THETA[sp](r, n, .2)
        for i in range(m):
            th[i] = draw(r, 3., 30.)
        return th
    return kit.THETA[sp](r, n, {"weak": .6, "mid": 1.}[regime])


def block_theta(sp, n, blocks, thetas):
    """Parameters of a system of n spins made of independent groups of spins."""
    m = 3 if sp == "potts" else 1
    th = [0.] * (m * n + n * (n - 1) // 2)
    pair = {p: m * n + k for k, p in enumerate(itertools.combinations(range(n), 2))}
    for b, t in zip(blocks, thetas):
        k = len(b)
        for c in range(m):
            for a in range(k):
                th[c * n + b[a]] = t[c * k + a]
        for x, (i, j) in zip(t[m * k:], itertools.combinations(b, 2)):
            th[pair[i, j]] = x
    return th


def gen_blocks(r, i):
    """A larger system whose law is still known exactly: independent groups of at most three coupled spins, scattered over
    the positions of an n-spin system."""
    kind = r.choice(["metro_boost"] * 4 + ["potts_boost"] * 3 + ["model_ising", "model_potts", "metro_py", "potts_py", "wolff"])
    sp = kit.space(kind)
    native = "boost" in kind or kind.startswith("model")
    n = r.choice((5, 6, 7, 9, 12, 16, 17, 24, 33, 40)) if native else r.choice((5, 6, 7, 8))
    systematic = r.random() < .35 and not kind.startswith(("model", "wolff"))
    pos = list(range(n))
    r.shuffle(pos)
    blocks, thetas, it = [], [], n
    while pos:
        k = min(len(pos), r.choice((1, 2, 3, 3) if sp == "ising" else (1, 2, 2)))
        for _ in range(200):
            t = kit.THETA[sp](r, k, r.choice((.6, 1.)))
            need = metropolis_gap_iters(sp, k, t, eps=1e-3, systematic=systematic, cap=90)
            if need <= 60:
                break
        blocks.append(sorted(pos[:k]))
        del pos[:k]
        thetas.append(t)
        # `need` updates of this group's own spins; 1.5: the number of those among n_iters updates fluctuates
        it = max(it, -(-need // k) * n if systematic else int(1.5 * need * n / k) + 1)
    burn = 2 * it
    N = max(3000, min(20000, 6 * 10 ** 6 // it)) if native else max(500, min(3000, 60000 // it))
    if kind == "wolff":
        it, N = 12 * n, 800
    if sp == "potts":
        # a chain may be stretched by the native code's own cost per energy; keep the total bounded
        N = min(N, 12000) if native else min(N, 1500)
    return {"kind": kind, "cpu": r.choice((3, 4, 8)), "n": n, "blocks": blocks, "theta": block_theta(sp, n, blocks, thetas),
            "thetas": thetas, "dtype": "float64", "n_iters": it, "burn_in": burn, "N": N, "how": r.choice(("seq", "par")),
            "burst": False, "systematic": systematic, "rng_seed": r.randrange(2 ** 31), "regime": "blocks"}


def gen_wolff(r):
    """Couplings that make large clusters, fields that decide whether they flip."""
    n = r.choice((4, 5, 6))
    c = r.choice((.25, .4, .55))
    th = [round(r.choice((-1, 1)) * r.uniform(0, .5), 6) for _ in range(n)]
    th += [round(r.choice((1, 1, 1, -1)) * r.uniform(.3, 1.) * c, 6) for _ in range(n * (n - 1) // 2)]
    return {"kind": "wolff", "cpu": 4, "n": n, "theta": th, "dtype": "float64", "n_iters": 30, "burn_in": None, "N": 4000,
            "how": r.choice(("seq", "par")), "burst": False, "systematic": False, "rng_seed": r.randrange(2 ** 31),
            "regime": "clusters", "shrink": {"N": 400}}


def gen(seed, tier, i):
    r = rngof("C03", seed, i)
    if i % 22 == 7:
        return gen_wolff(r)
    if i % 6 == 5:
        return gen_blocks(r, i)
    kind = r.choice(["metro_boost"] * 5 + ["potts_boost"] * 4 + ["metro_py"] * 2 + ["metro_triplet", "potts_py", "wolff",
                    "model_ising", "model_potts", "sample_ising"])
    sp = kit.space(kind)
    native = "boost" in kind or kind in ("model_ising", "model_potts", "sample_ising")
    cpu = r.choice((3, 4, 8))
    how = r.choice(("seq", "par"))
    burst = r.choice((False, False, True))       # many calls of few draws: every draw depends on burn-in
    systematic = r.random() < .35 and not kind.startswith(("model", "sample_ising", "wolff"))
    for _ in range(60):
        n = r.choice({"ising": (2, 3, 3, 4), "triplet": (3, 4, 5), "potts": (2, 3)}[sp])
        dtype = r.choice(DTYPES) if kind in ("metro_boost", "potts_boost", "model_ising", "model_potts") else "float64"
        regime = r.choice(("weak", "mid", "mid", "strong")) if native else r.choice(("weak", "mid"))
        if kind == "wolff":
            regime = "mid"
        th = pick_theta(r, sp, n, regime, dtype)
        it = metropolis_gap_iters(sp, n, th, eps=1e-3, systematic=systematic, cap=600 if native else 80)
        if it <= (600 if native else 80):
            break
    else:
        raise HarnessError("no mixing parameters found")
    it = max(it, n)
    # enough burn-in from any starting point; strong fields relax in a few sweeps
    burn = 2 * it + (0 if regime != "strong" else 30 * n)
    if systematic:
        burn = (burn // n) * n
    N = 24000 if native else max(1200, min(4000, 60000 // it))
    if kind == "wolff":
        it, burn, N = 12, None, 1500
    if burst and native:
        N = 3000
    return {"kind": kind, "cpu": cpu, "n": n, "theta": th, "dtype": dtype, "n_iters": it, "burn_in": burn, "N": N, "how": how,
            "burst": burst, "systematic": systematic, "rng_seed": r.randrange(2 ** 31), "regime": regime,
            "shrink": {"N": 400}}


def collect(scn, sim):
    from coniii import models, samplers
    kind, n, N = scn["kind"], scn["n"], scn["N"]
    sp = kit.space(kind)
    rng = np.random.RandomState(scn["rng_seed"])
    th = theta_as(scn["theta"], scn["dtype"])
    cfg = {"kind": kind, "n": n, "theta": scn["theta"]}
    kw = dict(n_iters=scn["n_iters"], burn_in=scn["burn_in"], systematic_iter=scn["systematic"])
    out = []
    if kind == "sample_ising":
        k = 8 if scn["burst"] else 2
        for j in range(k):
            out.append(samplers.sample_ising(th, N // k, seed=int(rng.randint(2 ** 31 - 1)), parallel=scn["how"] == "par",
                                             generate_sample_kw=dict(n_iters=scn["n_iters"], burn_in=scn["burn_in"])))
        return np.vstack(out)
    if kind.startswith("model"):
        m = kit.make_model(cfg, th, rng)
        per = max(sim.cpu_count + 1, 6) if scn["burst"] else N
        m.setup_sampler(sample_size=per, sampler_kwargs={"iprint": False} if sp == "ising" else {})
        for j in range(max(1, N // per)):
            m.generate_sample(scn["n_iters"], scn["burn_in"], parallel=scn["how"] == "par")
            out.append(m.sample.copy())
        return np.vstack(out)
    if kind == "metro_boost":
        s = samplers.Metropolis(n, th, rng=rng, iprint=False)
    elif kind == "metro_py" or kind == "metro_triplet":
        s = samplers.Metropolis(n, th, calc_e_for(sp), rng=rng, boost=False, iprint=False)
    elif kind == "potts_boost":
        s = samplers.Potts3(n, th, rng=rng)
    elif kind == "potts_py":
        s = samplers.Potts3(n, th, calc_e_for("potts"), rng=rng, boost=False)
    else:
        s = samplers.WolffIsing(th[n:], th[:n])
        s.rng = rng
        if scn["how"] == "par":
            return s.generate_sample_parallel(N, scn["n_iters"]).astype(int)
        return s.generate_sample(N, scn["n_iters"]).astype(int)
    f = s.generate_sample_parallel if scn["how"] == "par" else s.generate_sample
    if scn["burst"]:
        per = sim.cpu_count if scn["how"] == "par" else (1 if "boost" in kind else 2)
        if "boost" not in kind:
            N = min(N, 400)
            kw["n_iters"] = n
        for j in range(N // per):
            f(per, **kw)
            require(len(s.sample) == per, "wrong-sample-shape", f"asked {per} draws, got {s.sample.shape}")
            out.append(s.sample[:1].copy() if "boost" not in kind and scn["how"] == "seq" else s.sample.copy())
        return np.vstack(out)
    f(N, **kw)
    return s.sample


def judge_blocks(scn, sim, sp, x):
    """Every group follows its own law exactly, and no two groups know of each other."""
    laws = [boltzmann(sp, len(b), t) for b, t in zip(scn["blocks"], scn["thetas"])]

    def judge(cols, p, what):
        pv, stat, odd = chi2_pvalue(x[:, cols], p)
        require(pv > PMIN, "wrong-distribution",
                lambda: f"{len(x)} draws of {scn['n']} spins by {scn['kind']} ({scn['how']}, systematic={scn['systematic']}): {what} "
                        f"{cols} do not follow exp(-E)/Z: chi2={stat:.1f} p={pv:.2g}")

    sim.count("draws", len(x))
    for b, p in zip(scn["blocks"], laws):
        judge(b, p, "the coupled spins")
    pairs = list(itertools.combinations(range(len(laws)), 2))
    rngof("pairs", scn["rng_seed"]).shuffle(pairs)
    for a, c in pairs[:60]:
        i, j = scn["blocks"][a][0], scn["blocks"][c][-1]
        pa, pc = {}, {}
        for s, w in laws[a].items():
            pa[s[0]] = pa.get(s[0], 0) + w
        for s, w in laws[c].items():
            pc[s[-1]] = pc.get(s[-1], 0) + w
        judge([i, j], {(u, v): pa[u] * pc[v] for u in pa for v in pc}, "the uncoupled spins")
    return {"digest": digest(x), "key": (scn["kind"], scn["how"], scn["systematic"], "blocks", scn["n"])}


def run(scn, sim):
    sp = kit.space(scn["kind"])
    sim.log_on = False
    x = collect(scn, sim)
    sim.log_on = True
    check_sample(x, len(x), scn["n"], sp)
    if "blocks" in scn:
        return judge_blocks(scn, sim, sp, x)
    p = boltzmann(sp, scn["n"], [float(t) for t in np.asarray(theta_as(scn["theta"], scn["dtype"]), dtype=float)])
    pv, stat, odd = chi2_pvalue(x, p)
    sim.count("draws", len(x))
    sim.count("p<0.01", int(pv < .01))
    require(pv > PMIN, "wrong-distribution",
            lambda: f"{len(x)} draws by {scn['kind']} ({scn['how']}, systematic={scn['systematic']}, dtype={scn['dtype']}, "
                    f"burst={scn['burst']}) do not follow exp(-E)/Z: chi2={stat:.1f} p={pv:.2g}")
    return {"digest": digest(x), "key": (scn["kind"], scn["how"], scn["systematic"], scn["dtype"], scn["regime"], scn["burst"])}
