"""C09: Monte Carlo histogram solving ends in bounded rounds and tells the truth about what it did.

The model handed to the solver notes every sampling round (parameters in force, states drawn); in scripted runs it also
decides the states itself, which is the adversarial version of sampling noise: converging at a chosen round, meeting only
one of the two tolerances, never moving.  The histogram approximation handed in through its public argument notes every
learning step.  Afterwards the returned numbers are checked against that record."""
import itertools

import numpy as np

from dst.core import InjectedFault, Violation
from . import kit
from .common import digest, require, rngof

N_RUNS = {"quick": 420, "thorough": 6000}
FAULTS = ("fork_eagain", "worker_oserror", "worker_memory", "worker_late_error", "interrupt")


def n_params(sp, n):
    return (3 * n if sp == "potts" else n) + n * (n - 1) // 2


def gen(seed, tier, i):
    r = rngof("C09", seed, i)
    sp = "potts" if i % 7 == 3 else "ising"
    sparse = i % 3 == 1
    n = r.choice((2, 3, 4) if sp == "ising" else (2, 3))
    m = n_params(sp, n)
    scn = {"space": sp, "sparse": sparse, "n": n, "cpu": r.choice((2, 3, 4)), "rng_seed": r.randrange(2 ** 31),
           "rows": r.choice((7, 30, 60)), "data_seed": r.randrange(2 ** 31), "size": r.choice((9, 24, 50)),
           "mode": "real" if i % 4 == 0 else "scripted", "solves": []}
    if sparse:
        k = r.randrange(1, m + 1)
        ix = sorted(r.sample(range(m), k))
        if r.random() < .3:
            ix = ix + [r.choice(ix)]                # repeated entries are documented to be merged
            r.shuffle(ix)
        scn["ix"] = ix
    for _ in range(r.choice((1, 1, 2))):
        so = {"guess": r.random() < .5, "guess_scale": r.choice((.1, 1.)), "constraints": r.choice(("data", "given")),
              "maxiter": r.choice((0, 1, 2, 4, 7)), "tol": r.choice((None, .02, .2, .5, 1.5)),
              "tolNorm": r.choice((None, .03, .3, 1., 4.)), "seed": r.randrange(2 ** 31)}

        def settings():
            d = {"maxdlamda": r.choice((.05, .3, 1., 3.)), "eta": r.choice((.02, .3, 1.))}
            if r.random() < .5:
                d["maxdlamdaNorm"] = r.choice((.05, .5, 2.))
            if r.random() < .5:
                d["maxLearningSteps"] = r.choice((1, 3, 20))
            return d
        c = r.choice(("default", "kwargs", "custom", "custom_size"))
        if c == "kwargs":
            so["learn"] = settings()
        elif c.startswith("custom"):
            so["custom"] = [settings() for _ in range(r.choice((1, 2, 4)))]
            if c == "custom_size":
                so["sizes"] = [r.choice((9, 17, 40)) for _ in so["custom"]]
        so["script"] = [[r.choice(("data", "near", "near", "near2", "const", "random", "random")), r.randrange(2 ** 31)]
                        for _ in range(so["maxiter"] + 3)]
        scn["solves"].append(so)
    if scn["mode"] == "real" and r.random() < .5:
        k = r.choice(FAULTS)
        scn["rates"] = {k: r.choice((.01, .04))}
    return scn


def ref_obs(sp, s):
    """Plain numpy observables, one row per state, in the package's order."""
    s = np.asarray(s)
    n = s.shape[1]
    pairs = list(itertools.combinations(range(n), 2))
    if sp == "potts":
        return np.column_stack([s[:, i] == k for k in range(3) for i in range(n)] +
                               [s[:, i] == s[:, j] for i, j in pairs]).astype(float)
    return np.column_stack([s[:, i] for i in range(n)] + [s[:, i] * s[:, j] for i, j in pairs]).astype(float)


class Record:
    def __init__(self):
        self.rounds = []      # [multipliers, states, asked size]
        self.steps = []       # [round number, dlamda (as handed in), sample handed in, prediction]


def make(scn):
    """Solver whose model and approximation keep a record."""
    from coniii import models, solvers, utils
    sp, n = scn["space"], scn["n"]
    rng = np.random.RandomState(scn["rng_seed"])
    values = (-1, 1) if sp == "ising" else (0, 1, 2)
    d = np.random.RandomState(scn["data_seed"])
    w = d.dirichlet(np.ones(len(values)) * 3)
    data = d.choice(values, size=(scn["rows"], n), p=w)
    rec = Record()
    if sp == "ising":
        model = models.Ising(np.zeros(n_params(sp, n)), rng=rng)
        helpers = utils.define_ising_helper_functions()
    else:
        model = models.Potts3(np.zeros(n_params(sp, n)), rng=rng)
        helpers = utils.define_potts_helper_functions(3)
    real = model.generate_sample
    rec.script = None

    def generate_sample(n_iters, burn_in, multipliers=None, sample_size=None, **kw):
        size = sample_size or model.sampleSize
        m = np.array(model.multipliers if multipliers is None else multipliers, dtype=float, copy=True)
        if rec.script is None:
            real(n_iters, burn_in, multipliers=multipliers, sample_size=sample_size, **kw)
        else:
            k = len(rec.rounds)
            how, seed = rec.script[k] if k < len(rec.script) else ("random", k)
            q = np.random.RandomState(seed)
            s = data[np.arange(max(1, size // len(data)) * len(data)) % len(data)].copy()
            if how in ("near", "near2"):
                for _ in range((1 if how == "near" else 3)):
                    s[q.randint(len(s)), q.randint(n)] = values[q.randint(len(values))]
            elif how == "const":
                s[:] = values[q.randint(len(values))]
            elif how == "random":
                s = q.choice(values, size=(size, n))
            model.sample = s
        rec.rounds.append([m, np.array(model.sample, copy=True), size])

    model.generate_sample = generate_sample

    def approximation(sample, dlamda):
        k, d0, s0 = len(rec.rounds) - 1, np.array(dlamda, copy=True), np.array(sample, copy=True)
        out = helpers[2](sample, dlamda)
        rec.steps.append([k, d0, s0, np.array(out, copy=True)])
        return out
    kw = dict(model=model, calc_observables=helpers[1], mch_approximation=approximation, sample_size=scn["size"], iprint=False,
              sampler_kw={"iprint": False} if sp == "ising" else {})
    if scn["sparse"]:
        ix = np.array(scn["ix"], dtype=np.int64)
        s = solvers.SparseMCH(data, parameter_ix=ix, **kw)
    else:
        s = solvers.MCH(data, **kw)
    return s, model, data, rec


def effective(so, j, default_size):
    """Settings and sample size asked for at round j."""
    if "custom" in so:
        k = min(j, len(so["custom"]) - 1)
        return so["custom"][k], so["sizes"][k] if "sizes" in so else default_size
    return so.get("learn", {"maxdlamda": 1, "eta": 1}), default_size


def check_approximation(sp, sample, dlam, got, what):
    """The histogram reweighting of the round's own states."""
    o = ref_obs(sp, sample)
    a = o @ dlam
    w = np.exp(a - a.max())
    want = (o * w[:, None]).sum(0) / w.sum()
    require(np.allclose(got, want, atol=1e-8), "reweighting-wrong", lambda: f"{what}: predicted {got.tolist()}, reweighting the "
            f"round's states by the change gives {want.tolist()}")


def run(scn, sim):
    sp, n = scn["space"], scn["n"]
    full = n_params(sp, n)
    s, model, data, rec = make(scn)
    ix = np.unique(scn["ix"]) if scn["sparse"] else np.arange(full)
    excluded = np.setdiff1d(np.arange(full), ix)
    data0 = data.copy()
    c_own = None if s.constraints is None else np.array(s.constraints, copy=True)
    if scn["mode"] == "real":
        sim.rates = dict(scn.get("rates", {}))
    sim.fault_budget = 2
    n_failed, outs, total = 0, [], 0
    flags = []
    for si, so in enumerate(scn["solves"]):
        q = np.random.RandomState(so["seed"])
        kw = {"maxiter": so["maxiter"], "n_iters": 3, "burn_in": 5, "full_output": True}
        given = so["constraints"] == "given" or (scn["sparse"] and len(ix) != full)
        target = ref_obs(sp, data).mean(0)
        if so["constraints"] == "given":
            target = target * .8 + .05
        target = target[ix]
        if given:
            kw["constraints"] = target.copy()
        if so["guess"]:
            kw["initial_guess"] = np.round(q.uniform(-1, 1, size=len(ix)) * so["guess_scale"], 4)
        if so["tol"] is not None:
            kw["tol"] = so["tol"]
        if so["tolNorm"] is not None:
            kw["tolNorm"] = so["tolNorm"]
        if "learn" in so:
            kw["learn_params_kwargs"] = dict(so["learn"])
        if "custom" in so:
            def custom(j, so=so):
                d, sz = effective(so, j, None)
                return (dict(d), sz) if sz is not None else dict(d)
            kw["custom_convergence_f"] = custom
        start = np.zeros(len(ix)) if not so["guess"] else np.array(kw["initial_guess"], copy=True)
        learn0 = dict(so.get("learn", {}))
        tol = so["tol"] or 1 / np.sqrt(scn["size"])
        tolNorm = so["tolNorm"] or np.sqrt(1 / scn["size"]) * full
        attempts = 0
        while True:
            rec.rounds, rec.steps = [], []
            rec.script = so["script"] if scn["mode"] == "scripted" else None
            what = f"solve {si} attempt {attempts}"
            sim.armed = bool(sim.rates) and attempts < 2
            err = None
            fired = sum(sim.faults.values())
            try:
                mult, flag, errors = s.solve(**kw)
            except InjectedFault as e:
                err = e
            finally:
                sim.armed = False
            require(np.array_equal(data, data0), "inputs-changed", f"{what}: the data changed")
            if c_own is not None:
                require(np.array_equal(s.constraints, c_own), "inputs-changed", f"{what}: the solver's own constraints changed")
            if given:
                require(np.array_equal(kw["constraints"], target), "inputs-changed", f"{what}: given constraints became "
                        f"{kw['constraints']}")
            if so["guess"]:
                require(np.array_equal(kw["initial_guess"], start), "inputs-changed",
                        f"{what}: the initial guess became {kw['initial_guess']}")
            if "learn" in so:
                require(kw["learn_params_kwargs"] == learn0, "inputs-changed", f"{what}: settings became "
                        f"{kw['learn_params_kwargs']}")
            if err is None:
                require(sum(sim.faults.values()) == fired, "failure-hidden", f"{what}: {sim.faults} and no error")
                break
            n_failed += 1
            attempts += 1
            require(attempts < 5, "not-retryable", f"{what}: {err!r}")
            sim.probe("failed_solve")
        mult, errors = np.asarray(mult), np.asarray(errors)
        K = len(errors) - 1            # rounds after the initial one
        total += K
        R = rec.rounds
        require(errors.ndim == 2 and errors.shape[1] == len(ix), "errors-shape", f"{what}: {errors.shape}")
        require(K + 1 <= len(R) <= K + 2, "errors-per-round", f"{what}: {len(R)} sampling rounds, {K + 1} recorded errors")
        require(1 <= K <= so["maxiter"] + 1, "too-many-rounds", f"{what}: {K} rounds with maxiter={so['maxiter']}")
        for j, (m, states, size) in enumerate(R):
            require(len(m) == full, "parameters-shape", f"{what}: round {j} samples with {m}")
            require((m[excluded] == 0).all(), "excluded-not-zero", lambda: f"{what}: round {j} samples with {m.tolist()}, "
                    f"parameters {excluded.tolist()} are excluded")
            if j and j <= K:
                want = effective(so, j - 1, scn["size"])[1]
                require(size == want, "sample-size", f"{what}: round {j} drew {size} states, asked for {want}")
        for j in range(K + 1):
            want = ref_obs(sp, R[j][1]).mean(0)[ix] - target
            require(np.allclose(errors[j], want, atol=1e-9), "error-not-of-round", lambda: f"{what}: recorded error {j} "
                    f"{errors[j].tolist()} but that round's states give {want.tolist()}")
        require(np.array_equal(R[0][0][ix], start), "start-not-guess", f"{what}: first round at {R[0][0]}, guess {start}")
        require(np.allclose(R[K][0][ix], mult, rtol=0, atol=0), "returned-not-last", lambda: f"{what}: returned {mult.tolist()}, "
                f"last sampled round used {R[K][0].tolist()}")
        if len(R) > K + 1:
            require(np.array_equal(R[K + 1][0], R[K][0]), "final-sample-parameters", f"{what}: {R[K + 1][0]} vs {R[K][0]}")
        fullm = np.asarray(s.multipliers)
        require(fullm.shape == (full,) and np.array_equal(fullm[ix], mult) and (fullm[excluded] == 0).all(),
                "solver-multipliers", f"{what}: solver.multipliers {fullm}, returned {mult}")

        def met(e):
            a, b = float(np.linalg.norm(e)), float(np.abs(e).max())
            if abs(a - tolNorm) < 1e-9 or abs(b - tol) < 1e-9:
                return None
            return a < tolNorm and b < tol
        last = met(errors[K])
        if last is not None:
            require(flag == (0 if last else 1), "dishonest-flag", f"{what}: flag {flag} with last error {errors[K]}, tol {tol}, "
                    f"tolNorm {tolNorm}")
            if a_only_one(errors[K], tol, tolNorm):
                sim.probe("one_tolerance_met")
        if flag == 1:
            require(K >= so["maxiter"], "gave-up-early", f"{what}: {K} rounds of {so['maxiter']}")
        for j in range(1, K):
            require(met(errors[j]) in (False, None), "ran-past-convergence", f"{what}: round {j} met both tolerances, {K} rounds")
        flags.append(int(flag))
        for j in range(K):
            st = [x for x in rec.steps if x[0] == j]
            if not st:
                raise Violation("no-learning-step", f"{what}: round {j}")
            eff, _ = effective(so, j, scn["size"])
            lim, limN, steps = eff["maxdlamda"], eff.get("maxdlamdaNorm", 1), eff.get("maxLearningSteps", 50)
            require(len(st) <= steps + 1, "too-many-learning-steps", f"{what}: round {j} took {len(st)} steps, limit {steps}")
            prev, est = np.zeros(len(ix)), errors[j]
            for k, (_, d, sample, pred) in enumerate(st):
                require(np.array_equal(sample, R[j][1]), "stale-sample-in-learning", f"{what}: round {j} step {k}")
                check_approximation(sp, sample, d, pred, f"{what} round {j} step {k}")
                require((d[excluded] == 0).all(), "excluded-not-zero", f"{what}: round {j} step {k} changes {d}")
                dx = d[ix]
                require(np.linalg.norm(prev) <= limN + 1e-9 and (np.abs(prev) <= lim + 1e-9).all(), "step-past-limits",
                        lambda: f"{what}: round {j} goes on learning after a change of {prev.tolist()} (limits {lim}, {limN})")
                inc = dx - prev
                require((np.abs(inc) <= eff["eta"] * np.abs(est) + 1e-9).all(), "learning-step-too-large",
                        lambda: f"{what}: round {j} step {k} moved by {inc.tolist()} for errors {est.tolist()}, eta {eff['eta']}")
                require((inc * est <= 1e-12).all(), "learning-step-uphill", lambda: f"{what}: round {j} step {k} moved by "
                        f"{inc.tolist()} for errors {est.tolist()}")
                prev, est = dx, pred[ix] - target
            change = R[j + 1][0][ix] - R[j][0][ix]
            require(np.allclose(change, prev, atol=1e-9), "round-change", lambda: f"{what}: round {j} to {j + 1} moved by "
                    f"{change.tolist()}, learning ended at {prev.tolist()}")
        outs.append([mult, int(flag), errors])
    sim.probe("flag0") if 0 in flags else None
    sim.probe("flag1") if 1 in flags else None
    return {"digest": digest(outs), "nontrivial": total > 0, "key": (sp, scn["sparse"], scn["mode"], scn["rng_seed"])}


def a_only_one(e, tol, tolNorm):
    return (float(np.linalg.norm(e)) < tolNorm) != (float(np.abs(e).max()) < tol)
