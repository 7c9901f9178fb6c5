"""C13: callers whose calls interleave at any point get what each would get alone; nobody's inputs change.

Two or three callers run as threads of one process under a scheduler that decides who runs and for how long, down to single lines
of the package's code.  Each has objects of its own but shares data sets, guesses, constraints and option dictionaries with the
others.  The reference for every call is the same call on a fresh solver (for samplers and models: the same history) in a forked
copy of the process in which nothing else happened."""
import contextlib
import copy
import os

import numpy as np

from dst.child import in_child
from dst.core import HarnessError, InjectedError, InjectedFault, Violation
from dst.threads import Callers
from . import kit
from .common import all_states, canon, digest, observables, require, rng_state, rngof, boltzmann

N_RUNS = {"quick": 260, "thorough": 4000}
SOLVERS = ("enumerate", "sparse_enumerate", "mpf", "mch", "sparse_mch", "pseudo", "pseudo_general", "pseudo_potts", "cluster", "rmf")
SAMPLERS = ("metro_boost", "metro_py", "potts_boost", "potts_py", "wolff", "pt", "model_ising", "model_ising_py", "lattice",
            "sample_ising", "metro_triplet")
FAULTS = ("fork_eagain", "worker_oserror", "worker_late_error")
RAISES = {"enumerate": ("model_obs", "calc_observables"), "sparse_enumerate": ("model_obs",), "mpf": ("calc_e", "calc_observables"),
          "mch": ("calc_observables", "mch_approximation", "custom"), "sparse_mch": ("calc_observables", "mch_approximation", "custom"),
          "pseudo": ("get_multipliers_r", "calc_observables_r"), "pseudo_general": ("get_multipliers_r", "calc_observables_r"),
          "pseudo_potts": ("get_multipliers_r", "calc_observables_r", "cost"), "cluster": (), "rmf": ("model_sample",)}


# ------------------------------------------------------------------ scenarios
def gen(seed, tier, i):
    r = rngof("C13", seed, i)
    n = r.choice((3, 3, 4))
    cpu = r.choice((2, 3, 4))
    scn = {"n": n, "cpu": cpu, "compiled_once": r.random() < .92, "data": {}, "lines": r.random() < .75,
           "quanta": r.choice(([None, 1, 3, 10, 40, 200, 1000, 5000], [None, 200, 2000, 10000], [None, 1, 2, 5, 12], [None, 20, 70, 300]))}
    for name, st in (("ising", (-1, 1)), ("potts", (0, 1, 2))):
        rows = []
        bias = [r.uniform(.3, .7) for _ in range(n)]
        while len(rows) < r.choice((30, 60)):
            if name == "ising":
                row = [1 if r.random() < b else -1 for b in bias]
                for j in range(1, n):
                    if r.random() < .3:
                        row[j] = row[0]
            else:
                row = [r.choice(st) for _ in range(n)]
                if r.random() < .3:
                    row[-1] = row[0]
            rows.append(row)
        rows += [[st[0]] * n, [st[-1]] * n] if name == "ising" else [[v] * n for v in st]
        scn["data"][name] = rows
    rng2 = [[1 if r.random() < .5 else -1 for _ in range(n)] for _ in range(45)]
    scn["data"]["other"] = rng2 + [[1] * n, [-1] * n]
    if r.random() < .3:                          # as many distinct states in both data sets, but different ones
        k = r.randrange(4, 2 ** n - 1)
        every = all_states("ising", n)
        for name in ("ising", "other"):
            ks = [[int(v) for v in every[j]] for j in r.sample(range(2 ** n), k)]
            scn["data"][name] = ks + [r.choice(ks) for _ in range(40)]
    m = n + n * (n - 1) // 2
    scn["guess"] = [round(r.uniform(-.3, .3), 3) for _ in range(m)]
    scn["cons_theta"] = [round(r.uniform(-.5, .5), 3) for _ in range(m)]
    scn["shared_guess"] = r.random() < .7
    heavy = {"pt", "rmf", "enumerate", "sparse_enumerate"}
    kinds = []
    nc = r.choice((2, 2, 3))
    same = r.random() < .4                       # several callers using the same class
    first = SOLVERS[i % len(SOLVERS)] if i % 5 else SAMPLERS[(i // 5) % len(SAMPLERS)]
    kinds.append(first)
    if same and first in heavy:
        nc = 2
    while len(kinds) < nc:
        k = first if same else r.choice(SOLVERS * 2 + SAMPLERS)
        if k in heavy and sum(x in heavy for x in kinds) >= 2:
            continue
        kinds.append(k)
    scn["callers"] = [gen_caller(r, scn, k, n, cpu, i) for k in kinds]
    if all(c["kind"] in SOLVERS for c in scn["callers"]) and any(c.get("faults") for c in scn["callers"]):
        scn["rates"] = {r.choice(FAULTS): r.choice((.05, .15))}
    return scn


def gen_caller(r, scn, kind, n, cpu, i):
    if kind in SAMPLERS:
        sp = kit.space(kind)
        cfg = kit.gen_cfg(r, kind, None if kind in ("lattice", "pt") else min(n + 1, 4) if sp != "ising" else n)
        if kind == "potts_boost" and cpu < 3:    # documented: its parallel call needs two processes
            cfg["ncpu"] = cfg["ncpu"] or 2
        ops = [kit.gen_op(r, cfg, cpu) for _ in range(r.choice((1, 2, 3)) if kind != "pt" else 1)]
        return {"kind": kind, "cfg": cfg, "calls": ops, "seed": r.randrange(2 ** 31), "theta_shared": r.random() < .3}
    c = {"kind": kind, "seed": r.randrange(2 ** 31), "data": "potts" if "potts" in kind else r.choice(("ising", "ising", "other")),
         "user_functions": r.random() < .75, "calls": [], "sub": r.random() < .3}
    m = n + n * (n - 1) // 2
    if kind.startswith("sparse"):
        k = r.randrange(1, m + 1)
        c["parameter_ix"] = sorted(r.sample(range(m), k))
    if kind in ("mch", "sparse_mch", "rmf"):
        c["size"] = r.choice((40, 80, 150))
        c["n_cpus"] = r.choice((1, 2, None))
    for k in range(r.choice((1, 2, 2, 3))):
        call = {"seed": r.randrange(2 ** 31)}
        if kind in ("enumerate", "sparse_enumerate"):
            call.update(constraints=r.random() < .4, guess=r.random() < .5, max_param=r.choice((50, 50, None, 4)),
                        opts=r.random() < .5, use_root=r.random() < .85)
        elif kind == "mpf":
            call.update(guess=r.random() < .5, uselog=r.random() < .7, limits=r.choice((100, 3)), opts=r.random() < .5)
        elif kind in ("mch", "sparse_mch"):
            call.update(constraints=r.random() < .4, guess=r.random() < .5, maxiter=r.choice((1, 2, 3)), n_iters=r.choice((5, 20)),
                        burn_in=r.choice((5, 20)), custom=r.choice((None, "dict", "tuple")), opts=r.random() < .5)
        elif kind.startswith("pseudo"):
            call.update(guess=r.random() < .5 and "potts" not in kind, opts=r.random() < .5, cost=r.random() < .5)
        elif kind == "cluster":
            call.update(threshold=r.choice((0., 1e-3, .02, .2)), cache=r.choice((None, None, "own")),
                        prior=0., cluster=None)
        elif kind == "rmf":
            call.update(bracket=r.choice((None, [-.2, .4], [0., .8], [-1., 1.])), grid=r.choice((4, 6)), reset=r.random() < .7)
        if RAISES[kind] and r.random() < .35:
            call["raise"] = [r.choice(RAISES[kind]), r.choice((0, 1, 2, 3, 5, 8, 13, 30))]
        c["calls"].append(call)
    if kind in ("mch", "sparse_mch", "rmf") and r.random() < .5:
        c["faults"] = True
    if "potts" not in kind and r.random() < .5:
        # several data sets one after the other: a new solver for each call, all of them with the caller's one model object
        while len(c["calls"]) < 2:
            c["calls"].append(dict(c["calls"][0], seed=r.randrange(2 ** 31)))
        c["one_model"] = [r.choice(("ising", "other")) for _ in c["calls"]]
    return c


# ------------------------------------------------------------------ inputs
class Inputs:
    """What the callers hand to the package; built once and shared by all of them."""

    def __init__(self, scn):
        n = scn["n"]
        self.n = n
        self.data = {k: np.array(v, dtype=np.int64) for k, v in scn["data"].items()}
        self.guess = np.array(scn["guess"])
        self.cons = observables("ising", n, scn["cons_theta"])
        self.guess_potts = np.zeros(3 * n + n * (n - 1) // 2) + .05
        self.root_kw = {"method": "krylov", "options": {"fatol": 1e-10, "xatol": 1e-10, "maxiter": 60}}
        self.min_kw = {"method": "BFGS", "options": {"maxiter": 25}}
        self.mpf_kw = {"maxiter": 20, "disp": False, "ftol": 1e-12}
        self.pseudo_kw = {"method": "BFGS", "options": {"maxiter": 30}}
        self.learn_kw = {"maxdlamda": .4, "eta": .7}
        self.learn_kw2 = {"maxdlamda": .2, "eta": .3, "maxdlamdaNorm": .5}
        self.gen_kw = {}
        self.sampler_kw = {}
        self.ix = {tuple(c["parameter_ix"]): np.array(c["parameter_ix"], dtype=np.int64) for c in scn["callers"] if "parameter_ix" in c}
        self.theta = {}
        for c in scn["callers"]:
            if "cfg" in c and "theta" in c["cfg"]:
                self.theta.setdefault(tuple(c["cfg"]["theta"]), np.array(c["cfg"]["theta"]))

    def shot(self):
        return {k: (digest(v), copy.deepcopy(v) if isinstance(v, (dict, np.ndarray)) else None) for k, v in vars(self).items()}

    def changed(self, shot):
        return [k for k, v in vars(self).items() if k not in shot or digest(v) != shot[k][0]]


class Callback:
    """A user-supplied function: a point where other callers may run, and where the user's code may raise."""

    def __init__(self, fn, sim, name):
        self.fn, self.sim, self.name, self.calls, self.at, self.fired = fn, sim, name, 0, None, False

    def __call__(self, *a, **k):
        self.calls += 1
        if self.at is not None and self.calls > self.at:
            self.at, self.fired = None, True
            self.sim.fired("callback_raises:" + self.name)
            raise InjectedError(f"user function {self.name} failed")
        if self.sim.scheduler is not None:
            self.sim.scheduler.yield_point("callback:" + self.name)
        return self.fn(*a, **k)


_warm = {}


def functions(n):
    """User functions, compiled once in this process (forked copies inherit them)."""
    if n not in _warm:
        from coniii import utils
        e, obs, mch = utils.define_ising_helper_functions()
        X = np.array([[1] * n, [-1] * n], dtype=np.int64)
        mch(X, np.zeros(n + n * (n - 1) // 2))
        obs(X)
        gm, co = utils.define_pseudo_ising_helper_functions(n)
        pgm, pco = utils.define_pseudo_potts_helper_functions(n, 3)
        pobs = utils.define_potts_helper_functions(3)[1]
        X3 = np.array([[0] * n, [1] * n, [2] * n], dtype=np.int64)
        p3 = np.zeros(3 * n + n * (n - 1) // 2)
        pobs(X3)
        for r in range(2):
            gm(r, np.zeros(n + n * (n - 1) // 2))
            co(r, X)
            pgm(r, p3)
            pco(r, X3)
        _warm[n] = {"calc_e": e, "calc_observables": obs, "mch_approximation": mch, "get_multipliers_r": gm, "calc_observables_r": co,
                    "potts_get": pgm, "potts_obs_r": pco, "potts_obs": pobs}
    return _warm[n]


_memo = {}
FACTORIES = ("define_ising_helper_functions", "define_triplet_helper_functions", "define_potts_helper_functions",
             "define_pseudo_ising_helper_functions", "define_pseudo_potts_helper_functions")


def compile_once():
    """In most runs the package's compiled energy and observable functions are compiled once per process, not once per object."""
    from coniii import models, samplers, solvers, utils
    for name in FACTORIES:
        real = getattr(utils, name, None)
        if real is None:
            continue

        def factory(*a, real=real, name=name):
            if (name, a) not in _memo:
                _memo[name, a] = real(*a)
            return _memo[name, a]
        for m in (models, samplers, solvers):
            if getattr(m, name, None) is real:
                setattr(m, name, factory)


def warm(n):
    """Compile in this process, for the forked copies."""
    if ("warm", n) in _memo:
        return
    _memo["warm", n] = True
    from coniii import utils
    F = functions(n)
    for name, a in ((FACTORIES[0], ()), (FACTORIES[1], ()), (FACTORIES[2], (3,)), (FACTORIES[3], (n,))):
        if (name, a) not in _memo:
            _memo[name, a] = getattr(utils, name)(*a)
    X, m = np.array([[1] * n, [-1] * n], dtype=np.int64), n + n * (n - 1) // 2
    gm, co = _memo[FACTORIES[3], (n,)]
    for r in range(2):
        gm(r, np.zeros(m))
        co(r, X)
    _memo[FACTORIES[0], ()][1](X)
    _memo[FACTORIES[2], (3,)][0](np.abs(X), np.zeros(3 * n + n * (n - 1) // 2))
    utils.adj(np.array([0] * n, dtype=np.int64))


# ------------------------------------------------------------------ one caller's solver
class Solve:
    def __init__(self, scn, c, inp, sim):
        self.scn, self.c, self.inp, self.sim = scn, c, inp, sim
        self.model = None
        self.setup(c["data"])

    def setup(self, data):
        from coniii import models, solvers
        scn, c, inp, sim = self.scn, self.c, self.inp, self.sim
        n, kind = scn["n"], c["kind"]
        self.data = data
        self.cache = ({}, {})
        F = functions(n)
        cb = self.cb = {}

        def user(name, fn=None):
            cb[name] = Callback(fn or F[name], sim, name)
            return cb[name]
        X = inp.data[data]
        kw = {"iprint": False}
        if self.model is not None:
            kw["model"] = self.model
        rng = np.random.RandomState(c["seed"])
        if c["user_functions"] and "potts" not in kind:
            kw["calc_observables"] = user("calc_observables")
        if kind == "enumerate":
            self.s = solvers.Enumerate(X, **kw)
        elif kind == "sparse_enumerate":
            self.s = solvers.SparseEnumerate(X, parameter_ix=inp.ix[tuple(c["parameter_ix"])], **kw)
        elif kind == "mpf":
            self.s = solvers.MPF(X, **kw)
        elif kind in ("mch", "sparse_mch"):
            if c["user_functions"]:
                kw["mch_approximation"] = user("mch_approximation")
            kw.update(sample_size=c["size"], sampler_kw=inp.sampler_kw, rng=rng, n_cpus=c["n_cpus"])
            if kind == "mch":
                self.s = solvers.MCH(X, **kw)
            else:
                self.s = solvers.SparseMCH(X, parameter_ix=inp.ix[tuple(c["parameter_ix"])], **kw)
        elif kind in ("pseudo", "pseudo_general"):
            if c["user_functions"]:
                kw.update(get_multipliers_r=user("get_multipliers_r"), calc_observables_r=user("calc_observables_r"))
            self.s = solvers.Pseudo(X, **kw)
        elif kind == "pseudo_potts":
            self.s = solvers.Pseudo(X, model=models.Potts3(np.zeros(inp.guess_potts.size)), calc_observables=F["potts_obs"],
                                    get_multipliers_r=user("get_multipliers_r", F["potts_get"]),
                                    calc_observables_r=user("calc_observables_r", F["potts_obs_r"]), k=3, iprint=False)
        elif kind == "cluster":
            self.s = solvers.ClusterExpansion(X, rng=rng, **kw)
        elif kind == "rmf":
            self.s = solvers.RegularizedMeanField(X, sample_size=c["size"], rng=rng, n_cpus=c["n_cpus"], **kw)
        else:
            raise HarnessError(kind)
        m = self.s.model
        require(self.model is None or m is self.model, "another-model", f"{kind}: the solver does not use the model it was given")
        for name, attr, kinds in (("model_obs", "calc_observables", ("enumerate", "sparse_enumerate")), ("calc_e", "calc_e", ("mpf",)),
                                  ("model_sample", "generate_sample", ("rmf",))):
            if kind in kinds:
                fn = getattr(m, attr)
                setattr(m, attr, user(name, fn.fn if isinstance(fn, Callback) else fn))
        if "one_model" in c:
            self.model = m

    def call(self, call, fail=True, j=0):
        """One solve; returns ("ok", result) or ("error", type)."""
        from scipy.optimize import OptimizeResult
        if "one_model" in self.c:
            self.setup(self.c["one_model"][j])
        inp, c, kind, s = self.inp, self.c, self.c["kind"], self.s
        for k in self.cb.values():
            k.calls, k.at, k.fired = 0, None, False
        custom = None
        kw = {}
        sub = (lambda v: v[inp.ix[tuple(c["parameter_ix"])]]) if kind.startswith("sparse") else (lambda v: v)
        if hasattr(s.model, "sampler"):
            s.model.set_rng(np.random.RandomState(call["seed"]))
        if call.get("guess"):
            kw["initial_guess"] = sub(inp.guess)
        if call.get("constraints"):
            kw["constraints"] = sub(inp.cons)
        elif kind.startswith("sparse"):
            kw["constraints"] = sub(s.constraints)
        if kind in ("enumerate", "sparse_enumerate"):
            kw.update(max_param_value=call["max_param"], use_root=call["use_root"], full_output=True)
            if not call["use_root"]:
                kw["scipy_solver_kwargs"] = inp.min_kw
            elif call["opts"]:
                kw["scipy_solver_kwargs"] = inp.root_kw
        elif kind == "mpf":
            kw.update(uselog=call["uselog"], parameter_limits=call["limits"])
            if call["opts"]:
                kw["solver_kwargs"] = inp.mpf_kw
            else:
                kw["solver_kwargs"] = {"maxiter": 25, "disp": False, "ftol": 1e-15}
        elif kind in ("mch", "sparse_mch"):
            kw.update(maxiter=call["maxiter"], n_iters=call["n_iters"], burn_in=call["burn_in"], full_output=True,
                      generate_kwargs=inp.gen_kw)
            if call["custom"]:
                plans = {"dict": lambda i: inp.learn_kw if i < 1 else inp.learn_kw2,
                         "tuple": lambda i: (inp.learn_kw if i < 1 else inp.learn_kw2, 50 + 10 * i)}
                custom = self.cb["custom"] = Callback(plans[call["custom"]], self.sim, "custom")
                # the solver inspects the type of the plan it is given, not of what wraps it
                kw["custom_convergence_f"] = custom
            elif call["opts"]:
                kw["learn_params_kwargs"] = inp.learn_kw
        elif kind.startswith("pseudo"):
            if kind == "pseudo_general":
                kw["force_general"] = True
            if call["opts"]:
                kw["solver_kwargs"] = inp.pseudo_kw
            if kind == "pseudo_potts":
                kw["initial_guess"] = inp.guess_potts
                if call["cost"]:
                    kw["cost_fcn"] = self.cb["cost"] = Callback(lambda x: .01 * float((x ** 2).sum()), self.sim, "cost")
                    kw["cost_fcn_jac"] = lambda x: .02 * x
        elif kind == "cluster":
            kw.update(threshold=call["threshold"], iprint=False, full_output=True)
            if call["cache"] == "own":
                kw.update(deltaSdict=self.cache[0], deltaJdict=self.cache[1])
        elif kind == "rmf":
            kw["reset_rng"] = call["reset"]
            if call["bracket"]:
                kw.update(bracket=tuple(call["bracket"]), n_grid_points=call["grid"])
        if fail and call.get("raise") and call["raise"][0] in self.cb:
            self.cb[call["raise"][0]].at = call["raise"][1]
        before = digest({k: v for k, v in kw.items() if isinstance(v, (np.ndarray, dict)) and not k.startswith("delta")})
        try:
            out = s.solve(**kw)
        except InjectedFault as e:
            res = ("injected", type(e).__name__)
        except (Violation, HarnessError):
            raise
        except Exception as e:
            res = ("error", type(e).__name__)
        else:
            if isinstance(out, tuple):
                out = [o["x"] if isinstance(o, OptimizeResult) else o for o in out]
                if kind == "cluster":
                    out = out[:3]
            else:
                out = [out]
            out.append(s.multipliers)
            res = ("ok", [np.array(o, copy=True) if isinstance(o, np.ndarray) else o for o in out])
        finally:
            for k in self.cb.values():
                k.at = None
        after = digest({k: v for k, v in kw.items() if isinstance(v, (np.ndarray, dict)) and not k.startswith("delta")})
        require(before == after, "inputs-changed", f"{kind}.solve changed a guess, constraints or options it was given ({sorted(kw)})")
        require(s.sample is inp.data[self.data] or np.array_equal(s.sample, inp.data[self.data]), "inputs-changed",
                f"{kind}: the solver's data are no longer the data it was given")
        return res


class Sampler:
    def __init__(self, scn, c, inp, sim):
        self.cfg, self.c = c["cfg"], c
        self.rng = np.random.RandomState(c["seed"])
        self.obj = kit.make(self.cfg, self.rng)
        if c.get("theta_shared") and "theta" in self.cfg and c["kind"].startswith(("metro", "potts")):
            self.obj.update_parameters(inp.theta[tuple(self.cfg["theta"])])

    def call(self, op, fail=True, j=0):
        out = kit.apply(self.obj, self.cfg, op)
        rng = kit.object_rng(self.obj)
        return ("ok", [digest(out), None if rng is None else repr(rng_state(rng))])


def build(scn, c, inp, sim):
    if scn["compiled_once"]:
        compile_once()
    return (Sampler if c["kind"] in SAMPLERS else Solve)(scn, c, inp, sim)


def same(a, b):
    """Equal results: exactly, or to rounding (the arithmetic of a call does not depend on the others, its memory alignment may)."""
    if a[0] != b[0]:
        return False
    if digest(a[1]) == digest(b[1]):
        return True
    if a[0] != "ok" or len(a[1]) != len(b[1]):
        return False
    for x, y in zip(a[1], b[1]):
        if digest(x) == digest(y):
            continue
        if isinstance(x, (np.ndarray, float, np.floating)) and isinstance(y, (np.ndarray, float, np.floating)):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape == y.shape and np.allclose(x, y, rtol=1e-6, atol=1e-8, equal_nan=True):
                continue
        return False
    return True


# ------------------------------------------------------------------ run
def interleaved(scn, sim, tree):
    inp = Inputs(scn)
    shot = inp.shot()
    sim.fault_budget = 8
    from coniii import solvers, samplers  # noqa: F401

    def unchanged(when):
        bad = inp.changed(shot)
        if bad:
            k = bad[0]
            raise Violation("inputs-changed", f"{when}: {bad} changed; {k} is now {getattr(inp, k)!r:.400}")

    def caller(k, c):
        def body():
            res, obj = [], build(scn, c, inp, sim)
            for j, call in enumerate(c["calls"]):
                if sim.scheduler is not None:
                    sim.scheduler.yield_point("call")
                sim.armed = bool(c.get("faults") and scn.get("rates"))
                try:
                    out = obj.call(call, j=j)
                finally:
                    sim.armed = False
                unchanged(f"caller {k} ({c['kind']}) call {j} -> {out[0]}")
                for _ in range(20):              # other callers may be struck again in the meantime
                    if out[0] != "injected":
                        break
                    sim.probe("failed_call")
                    out = obj.call(call, fail=False, j=j)
                    unchanged(f"caller {k} ({c['kind']}) call {j} again")
                    sim.probe("retry_after_user_function_raised")
                res.append(out)
            return res
        return body
    threads = Callers(sim, tree, lines=scn["lines"], quanta=tuple(scn["quanta"]), on_switch=lambda: unchanged("while calls are in progress"))
    out = threads.run([caller(k, c) for k, c in enumerate(scn["callers"])])
    unchanged("at the end")
    return out


def alone(scn, sim, c, j):
    """The j-th call of caller c, with nobody else around: a fresh solver; a sampler with the same history."""
    sim.quiet, sim.scheduler, sim.armed = True, None, False
    inp = Inputs(scn)
    obj = build(scn, c, inp, sim)
    if c["kind"] in SAMPLERS:
        return [obj.call(op) for op in c["calls"]]
    return obj.call(c["calls"][j], fail=False, j=j)


def run(scn, sim):
    from dst.worker_info import tree, in_tree
    functions(scn["n"])
    if scn["compiled_once"]:
        warm(scn["n"])
    got = in_child(sim, lambda: interleaved(scn, sim, tree()), in_tree)
    for k, c in enumerate(scn["callers"]):
        if c["kind"] in SAMPLERS:
            want = in_child(sim, lambda: alone(scn, sim, c, 0), in_tree, carry=False)
        else:
            want = [in_child(sim, lambda: alone(scn, sim, c, j), in_tree, carry=False) for j in range(len(c["calls"]))]
        for j in range(len(c["calls"])):
            require(same(got[k][j], want[j]), "differs-from-alone", lambda: f"caller {k} ({c['kind']}) call {j} {c['calls'][j]}: "
                    f"{got[k][j]!r:.900} among others, {want[j]!r:.900} alone")
        sim.probe("caller_equals_alone")
    return {"digest": digest(got), "nontrivial": len(got) > 1 and sim.counters.get("caller_switches", 0) > len(got),
            "key": (tuple(c["kind"] for c in scn["callers"]), sim.schedule_signature())}
