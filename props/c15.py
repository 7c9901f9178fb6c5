"""C15: what a call has handed out never changes afterwards; remembered samples and likelihoods describe the current model.

Long histories of calls on several objects that live side by side (samplers, models, solvers sharing a model), with worker
failures.  Every array a call returns or leaves on its object is kept by reference together with its bytes; after every later
call, of whatever object, the bytes must be the same.  Sample-based likelihoods are recomputed from the states the model holds."""
import warnings

import numpy as np

from dst.core import InjectedFault
from . import kit
from .common import boltzmann, canon, chi2_pvalue, digest, ising_theta, require, rngof

N_RUNS = {"quick": 300, "thorough": 6000}
FAULTS = ("fork_eagain", "worker_oserror", "worker_memory", "worker_late_error", "interrupt")
PMIN = 1e-9
OBJECTS = ("metro_boost", "metro_py", "metro_triplet", "potts_boost", "potts_py", "wolff", "pt", "model_ising", "model_potts",
           "model_ising_py", "model_triplet")


def gen(seed, tier, i):
    r = rngof("C15", seed, i)
    cpu = r.choice((2, 3, 4))
    mode = ("solver", "handed", "solver", "mixed")[i % 4]
    scn = {"mode": mode, "cpu": cpu, "rng_seed": r.randrange(2 ** 31), "objs": [], "ops": []}
    if mode != "solver":
        for _ in range(r.choice((1, 2))):
            k = r.choice(OBJECTS)
            cfg = kit.gen_cfg(r, k)
            if k == "potts_boost" and cpu < 3:
                cfg["ncpu"] = cfg["ncpu"] or 2
            if k == "model_potts":               # it cannot sample in parallel on two cores (see DESIGN.md)
                scn["cpu"] = cpu = max(cpu, 3)
            scn["objs"].append(cfg)
    if mode != "handed":
        n = r.choice((2, 3, 4))
        m = n + n * (n - 1) // 2
        k = r.choice((m, r.randrange(1, m + 1)))
        scn["n"] = n
        scn["rows"] = [[r.choice((-1, 1)) if r.random() < .8 else 1 for _ in range(n)] for _ in range(r.choice((15, 40)))]
        scn["solver"] = r.choice(("mch", "mch", "sparse_mch"))
        scn["ix"] = sorted(r.sample(range(m), k))
        scn["size"] = r.choice((20, 60, 900))
        scn["two"] = r.random() < .3             # a second solver that uses the same model object
    total = r.choice((3, 5, 8))
    for _ in range(total):
        who = r.choice([("obj", j) for j in range(len(scn["objs"]))] + ([("solver", 0)] * 2 if "n" in scn else []))
        if who[0] == "obj":
            cfg = scn["objs"][who[1]]
            names = [x for x in kit.OPS[cfg["kind"]] if x != "mobs"] + (["mobs"] if cfg["kind"] in (
                "model_ising", "model_ising_py", "model_potts") else [])
            op = kit.gen_op(r, cfg, cpu, names)
            scn["ops"].append({"who": "obj", "j": who[1], "op": op})
            continue
        n = scn["n"]
        what = r.choice(("solve", "solve", "sample", "logp", "logp", "set"))
        op = {"who": "solver", "what": what, "which": r.choice((0, 1)) if scn["two"] else 0, "seed": r.randrange(2 ** 31)}
        if what == "solve":
            op.update(maxiter=r.choice((0, 1, 3)), n_iters=r.choice((20 * n, 2)), burn_in=20 * n, guess=r.random() < .5,
                      custom=r.choice((None, None, "sizes")), sizes=[r.choice((20, 33, 900)) for _ in range(5)],
                      tol=r.choice((None, .5)))
        elif what == "sample":
            op.update(theta=ising_theta(r, n), n_iters=r.choice((3, n)), burn_in=5, size=r.choice((None, 7, 40)),
                      own=r.random() < .5, parallel=r.random() < .5)
        elif what == "set":
            op.update(theta=ising_theta(r, n))
        else:
            op.update(query=gen_query(r, n, scn))
        scn["ops"].append(op)
    if "n" in scn:                               # always end by asking
        scn["ops"].append({"who": "solver", "what": "logp", "which": 0, "seed": 0, "query": gen_query(r, scn["n"], scn)})
    if r.random() < .35:
        scn["rates"] = {r.choice(FAULTS): r.choice((.03, .1))}
    return scn


def gen_query(r, n, scn):
    how = r.choice(("default", "full", "partial", "partial", "single", "repeated"))
    if how == "default":
        return None
    row = lambda p: [0 if r.random() < p else r.choice((-1, 1)) for _ in range(n)]
    if how == "single":
        return row(.3)
    rows = [row(0 if how == "full" else .4) for _ in range(r.choice((1, 4, 9)))]
    if how == "repeated":
        rows = [rows[r.randrange(len(rows))] for _ in range(12)]
    return rows


class Kept:
    """Everything handed out so far, by reference, with the bytes it had."""

    def __init__(self):
        self.items = []

    def keep(self, x, what):
        if isinstance(x, (list, tuple)):
            if x and not all(isinstance(v, (int, float, str)) for v in x):
                for k, v in enumerate(x):
                    self.keep(v, f"{what}[{k}]")
            return
        if isinstance(x, np.ndarray) and x.size:
            if any(a is x for a, _, _ in self.items):
                return
            self.items.append((x, canon(x), what))

    def check(self, after):
        for x, was, what in self.items:
            require(canon(x) == was, "handed-out-array-changed", lambda: f"{what} changed during {after}: now {x.tolist()}"[:900])


def expected_logp(model_sample, q):
    out = []
    for s in q:
        ix = [i for i, v in enumerate(s) if v != 0]
        hit = sum(all(int(d[i]) == s[i] for i in ix) for d in model_sample)
        out.append(hit / len(model_sample))
    return out


class SolverSide:
    def __init__(self, scn):
        from coniii import models, solvers
        self.scn = scn
        n = scn["n"]
        self.n, self.m = n, n + n * (n - 1) // 2
        self.data = np.array(scn["rows"])
        rng = np.random.RandomState(scn["rng_seed"])
        self.model = models.Ising(np.zeros(self.m), rng=rng)
        kw = dict(model=self.model, sample_size=scn["size"], iprint=False, sampler_kw={"iprint": False})

        def make(data):
            if scn["solver"] == "sparse_mch":
                return solvers.SparseMCH(data, parameter_ix=np.array(scn["ix"]), **kw)
            return solvers.MCH(data, **kw)
        self.solvers = [make(self.data)]
        if scn["two"]:
            self.solvers.append(make(self.data[::2].copy()))
        self.ix = np.array(scn["ix"]) if scn["solver"] == "sparse_mch" else np.arange(self.m)
        self.calls = []
        real = self.model.generate_sample

        def noted(*a, **k):
            st = self.model.rng.get_state()
            real(*a, **k)
            self.calls.append((st, a[:2]))
        self.model.generate_sample = noted

    def target(self, s):
        d = s.sample
        pairs = [(i, j) for i in range(self.n) for j in range(i + 1, self.n)]
        full = np.column_stack([d[:, i] for i in range(self.n)] + [d[:, i] * d[:, j] for i, j in pairs]).mean(0)
        return full[self.ix]

    def apply(self, op, sim, kept, what):
        from coniii import models
        s = self.solvers[op["which"]]
        if op["what"] == "set":
            self.model.set_multipliers(np.array(op["theta"]))
            return
        if op["what"] == "sample":
            kw = {} if op["own"] else {"multipliers": np.array(op["theta"])}
            self.model.generate_sample(op["n_iters"], op["burn_in"], sample_size=op["size"], parallel=op["parallel"], **kw)
            kept.keep(self.model.sample, f"{what}: model.sample")
            return
        if op["what"] == "logp":
            if getattr(self.model, "sample", None) is None:
                return
            ms, d0 = np.array(self.model.sample, copy=True), np.array(s.sample, copy=True)
            st = self.model.rng.get_state()[1].copy()
            q = None if op["query"] is None else np.array(op["query"])
            q0 = None if q is None else q.copy()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(divide="ignore"):
                    got = s.logp() if q is None else s.logp(q)
            rows = s.sample if q is None else np.atleast_2d(q)
            want = expected_logp(ms, rows.tolist())
            require(np.shape(got) == (len(rows),), "logp-shape", f"{what}: {np.shape(got)} for {len(rows)} states")
            require(np.allclose(np.exp(got), want, atol=1e-12), "logp-not-of-current-sample",
                    lambda: f"{what}: states {rows.tolist()[:6]} have frequencies {want[:6]} in the model's {len(ms)} remembered draws, "
                            f"logp says {np.exp(got).tolist()[:6]}")
            require(np.array_equal(self.model.sample, ms) and np.array_equal(s.sample, d0) and (q is None or np.array_equal(q, q0))
                    and np.array_equal(self.model.rng.get_state()[1], st), "logp-changed-something", what)
            sim.count("likelihoods", len(rows))
            kept.keep(got, f"{what}: log likelihoods")
            return
        kw = {"maxiter": op["maxiter"], "n_iters": op["n_iters"], "burn_in": op["burn_in"], "full_output": True, "tol": op["tol"],
              "constraints": self.target(s)}
        if op["guess"]:
            kw["initial_guess"] = np.round(np.random.RandomState(op["seed"]).uniform(-.6, .6, len(self.ix)), 3)
        if op["custom"]:
            kw["custom_convergence_f"] = lambda j: ({"maxdlamda": 1, "eta": 1}, op["sizes"][min(j, 4)])
        self.calls = []
        out = s.solve(**kw)
        kept.keep(out, f"{what}: returned")
        kept.keep(s.multipliers, f"{what}: solver.multipliers")
        kept.keep(self.model.sample, f"{what}: model.sample")
        x = self.model.sample
        full = np.zeros(self.m)
        full[self.ix] = out[0]
        if self.calls:
            st, args = self.calls[-1]
            fresh = models.Ising(full, rng=np.random.RandomState(0))
            fresh.rng.set_state(st)
            quiet, sim.quiet = sim.quiet, True
            try:
                fresh.setup_sampler(sample_size=len(x), sampler_kwargs={"iprint": False})
                armed, sim.armed = sim.armed, False
                fresh.generate_sample(op["n_iters"], op["burn_in"], sample_size=len(x))
                sim.armed = armed
            finally:
                sim.quiet = quiet
            require(np.array_equal(fresh.sample, x), "remembered-sample-not-of-returned-model",
                    lambda: f"{what}: the {len(x)} remembered draws are not what the returned parameters {full.tolist()} give from "
                            "the same generator state")
            sim.count("twins")
        if len(x) >= 500 and op["n_iters"] >= 20 * self.n and np.abs(full[self.n:]).max(initial=0) < 1. and np.abs(
                full[:self.n]).max() < 2:
            # not swept to exact equilibrium for every theta: only a gross mismatch of parameters is judged
            pv, stat, _ = chi2_pvalue(x, boltzmann("ising", self.n, full.tolist()))
            require(pv > 1e-30, "remembered-sample-not-of-returned-model", f"{what}: chi2={stat:.1f} p={pv:.2g} for {full.tolist()}")


def run(scn, sim):
    kept = Kept()
    rng = lambda k: np.random.RandomState((scn["rng_seed"] + k) % (2 ** 31))
    objs = [kit.make(cfg, rng(j + 1)) for j, cfg in enumerate(scn["objs"])]
    side = SolverSide(scn) if "n" in scn else None
    sim.rates = dict(scn.get("rates", {}))
    sim.fault_budget = 3
    raw = kit.copy
    outs, failed = [], 0

    def noting(x, box):
        if x is not None:
            box.append(x)
        return raw(x)

    for k, op in enumerate(scn["ops"]):
        what = f"call {k} {op.get('op') or {a: b for a, b in op.items() if a != 'who'}}"
        box = []
        kit.copy = lambda x: noting(x, box)
        sim.armed = bool(sim.rates)
        try:
            if op["who"] == "obj":
                o, cfg = objs[op["j"]], scn["objs"][op["j"]]
                out = kit.apply(o, cfg, op["op"])
                outs.append(out)
            else:
                side.apply(op, sim, kept, what)
        except InjectedFault:
            failed += 1
            sim.probe("failed_call")
        finally:
            sim.armed = False
            kit.copy = raw
        kept.check(what)
        for x in box:
            if op["who"] == "obj" and op["op"]["op"] not in ("iterate",):
                kept.keep(x, f"{what}: result")
        if op["who"] == "obj":
            for name in ("sample", "E"):
                v = getattr(objs[op["j"]], name, None)
                if name == "E" and scn["objs"][op["j"]]["kind"] == "pt":
                    continue
                kept.keep(v, f"{what}: {name}")
    kept.check("the whole run")
    sim.count("arrays_kept", len(kept.items))
    return {"digest": digest([outs, [c for _, c, _ in kept.items]]), "nontrivial": len(kept.items) > 1,
            "key": (scn["mode"], tuple(c["kind"] for c in scn["objs"]), scn["rng_seed"])}
