"""C10: the regularized mean-field search scores every strength against the same random numbers.

The simulator plays the search: in half of the runs it replaces scipy's scalar minimiser, so that strengths are evaluated
in an adversarial order, repeatedly, with foreign draws from the process-wide generator and from the model's own generator
between evaluations; in the other half the real minimiser runs.  Every evaluation is recorded at the model handed to the
solver (parameters, states, generator) and compared with a reference in plain numpy."""
import contextlib
import io
import itertools

import numpy as np

from dst.core import InjectedFault, Violation
from .common import digest, require, rng_state, rngof

N_RUNS = {"quick": 160, "thorough": 3000}
FAULTS = ("fork_eagain", "worker_oserror", "worker_memory", "worker_late_error", "interrupt")
POINTS = (.0, .05, .1, .125, .2, .25, .3, .5, .75, 1., 1.5)


def gen(seed, tier, i):
    r = rngof("C10", seed, i)
    scn = {"n": r.choice((2, 3, 3, 4, 5)), "cpu": r.choice((1, 2, 4, 8)), "size": r.choice((12, 40, 100)),
           "rows": r.choice((20, 45, 120)), "data_seed": r.randrange(2 ** 31), "rng_seed": r.randrange(2 ** 31),
           "reset": i % 6 != 5, "search": ("mock", "real", "mock", "grid")[i % 4]}
    if scn["search"] == "mock":
        scn["orders"] = [[r.choice(POINTS) for _ in range(r.choice((4, 7, 10)))] for _ in range(2)]
    elif scn["search"] == "grid":
        b = r.choice(((0., 1.), (0., .25), (.125, 2.125)))
        g = r.choice((4, 8))
        scn.update(bracket=list(b), grids=[g + 1, 2 * g + 1])
    if i % 5 == 2:
        k = r.choice(FAULTS)
        scn["rates"] = {k: r.choice((.01, .03))}
    return scn


def make_data(scn):
    d = np.random.RandomState(scn["data_seed"])
    n = scn["n"]
    while True:
        x = d.choice([-1, 1], size=(scn["rows"], n), p=[.45, .55])
        x[:, 1] = np.where(d.rand(len(x)) < .5, x[:, 0], x[:, 1])
        f = (x == 1).mean(0)
        c = np.atleast_2d(np.corrcoef(x.T))
        if ((f > .1) & (f < .9)).all() and (np.abs(c - np.eye(n)) < .9).all():
            return x


def ref_parameters(data, strength):
    """Regularized mean-field parameters, in the -1/+1 basis, for a strength; None where they are not real."""
    x = (data + 1) / 2.
    N, n = x.shape
    co = x.T @ x / N
    f = co.diagonal()
    pm = f.mean()
    g = strength / (pm ** 2 * (1 - pm) ** 2) / N
    c = co - np.outer(f, f)
    den = np.sqrt(np.outer(f * (1 - f), f * (1 - f)))
    q, v = np.linalg.eigh(c / den)
    rad = (q - g) ** 2 + 4 * g
    if (rad < 0).any():
        return None
    qh = .5 * (q - g + np.sqrt(rad))
    if (np.abs(qh) < 1e-9).any():
        return None
    J = (v / qh) @ v.T / den
    np.fill_diagonal(J, 0)
    fac = c * ((f - .5) / (f * (1 - f)))[:, None] - f[None, :]
    h = (J * fac).sum(1) - np.log(f / (1 - f))
    h01, J01 = -h, -J                          # exp(sum h x + sum J x x) over 0/1
    h11 = h01 / 2 + J01.sum(1) / 4
    return np.concatenate([h11, [J01[a, b] / 4 for a, b in itertools.combinations(range(n), 2)]])


def ref_objective(data, sample):
    x, y = (data + 1) / 2., (np.asarray(sample) + 1) / 2.
    N, n = x.shape
    tot = 0.
    for a in range(n):
        for b in range(a, n):
            cd, cm = (x[:, a] * x[:, b]).mean(), (y[:, a] * y[:, b]).mean()
            p = (cd * N + 1) / (N + 2)
            tot += (cm - cd) ** 2 / (p * (1 - p) / N)
    return tot


class Search:
    """One solve, recorded."""

    def __init__(self, scn, sim, which, seed):
        from coniii import solvers
        import scipy.optimize
        self.scn, self.sim, self.which = scn, sim, which
        self.data = make_data(scn)
        self.data0 = self.data.copy()
        self.foreign = np.random.RandomState(seed)
        self.s = solvers.RegularizedMeanField(self.data, sample_size=scn["size"], rng=np.random.RandomState(scn["rng_seed"]))
        self.past, self.rounds, self.evals = [], [], []
        model, real = self.s.model, self.s.model.generate_sample

        def generate_sample(*a, **kw):
            st = rng_state(model.rng)
            real(*a, **kw)
            self.rounds.append([np.array(model.multipliers, dtype=float, copy=True), model.sample.copy(), st])
            if scn["reset"]:
                for _ in range(int(self.foreign.randint(3))):       # somebody else uses the generators in between
                    model.rng.rand()
                    np.random.rand()
        model.generate_sample = generate_sample
        self.searched, self.chosen = False, None

        def minimize_scalar(fun, bracket=None, *a, **kw):
            self.searched = True

            def f(x, *aa):
                k = len(self.rounds)
                v = fun(x, *aa)
                self.evals.append((float(x), float(np.real(v)), k, len(self.rounds)))
                return v
            if scn["search"] == "mock":
                vals = [(f(x), x) for x in scn["orders"][which]]
                k = min(range(len(vals)), key=lambda j: vals[j][0])
                self.chosen = vals[k][1]
                return scipy.optimize.OptimizeResult(x=vals[k][1], fun=vals[k][0], success=True)
            res = self.real_min(f, bracket, *a, **kw)
            self.chosen = float(res["x"])
            return res
        self.patch = minimize_scalar

    def solve(self):
        from coniii import solvers
        import scipy.optimize
        scn = self.scn
        kw = {"reset_rng": scn["reset"]}
        if "bracket" in scn:
            kw.update(bracket=tuple(scn["bracket"]), n_grid_points=scn["grids"][self.which])
        self.real_min = scipy.optimize.minimize_scalar
        had = getattr(solvers, "minimize_scalar", None)
        scipy.optimize.minimize_scalar = self.patch
        if had is not None:
            solvers.minimize_scalar = self.patch
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return self.s.solve(**kw), None
        except (InjectedFault, KeyboardInterrupt):
            raise
        except Exception as e:          # an honest refusal (no interior minimum) is judged by the caller
            return None, e
        finally:
            scipy.optimize.minimize_scalar = self.real_min
            if had is not None:
                solvers.minimize_scalar = had

    def reset(self):
        self.past += self.rounds
        self.rounds, self.evals, self.searched, self.chosen = [], [], False, None


def check(scn, sim, q, out, err, what):
    data = q.data0
    require(np.array_equal(q.data, data), "inputs-changed", f"{what}: the data changed")
    # strengths of the sampling rounds
    table = []                                  # strength, objective (reference), round
    if "bracket" in scn:
        grid = np.linspace(scn["bracket"][0], scn["bracket"][1], scn["grids"][q.which])
        first = q.evals[0][2] if q.evals else len(q.rounds)
        if first == len(grid):
            table += [(float(x), None, k) for k, x in enumerate(grid)]
    for x, v, k0, k1 in q.evals:
        if k1 > k0:
            table.append((x, v, k1 - 1))
            continue
        # not sampled again: only right when the very same parameters have been sampled before and would draw the same states
        want = ref_parameters(data, x)
        prior = [] if want is None else [sm for m, sm, _ in q.past + q.rounds[:k0] if np.allclose(m, want, rtol=1e-9, atol=1e-12)]
        require(want is None or scn["reset"] and any(abs(ref_objective(data, sm) - v) <= 1e-6 * max(1, abs(v)) for sm in prior),
                "evaluated-without-sampling", f"{what}: strength {x} scored {v}")
    best = {}
    for x, v, k in table:
        m, sample, st = q.rounds[k]
        want = ref_parameters(data, x)
        if want is None:
            continue
        require(np.allclose(m, want, rtol=1e-5, atol=1e-6), "samples-another-model", lambda: f"{what}: strength {x} is scored with "
                f"parameters {m.tolist()}, mean-field parameters are {want.tolist()}")
        f = ref_objective(data, sample)
        if v is not None:
            require(abs(f - v) <= 1e-6 * max(1, abs(f)), "objective-wrong", f"{what}: strength {x} scored {v}, its sample gives {f}")
        best[x] = f
    if scn["reset"]:
        seen = {}
        for k, (m, sample, st) in enumerate(q.rounds):
            key = m.tobytes()
            if key in seen:
                require(np.array_equal(seen[key][0], sample), "same-strength-other-draws",
                        f"{what}: rounds {seen[key][1]} and {k} evaluate the same parameters {m.tolist()} with different draws")
                sim.probe("strength_evaluated_again")
            else:
                seen[key] = (sample, k)
        if q.rounds:
            require(len({st for _, _, st in q.rounds}) == 1, "generator-history-dependence",
                    f"{what}: evaluations start from different generator states")
    if err is not None:
        if "bracket" in scn and best:
            if "oundary" in str(err) and not q.evals:
                # the objective of the grid itself, recomputed
                grid = np.linspace(*scn["bracket"], scn["grids"][q.which])
                if len(q.rounds) == len(grid):
                    fs = [ref_objective(data, r[1]) for r in q.rounds]
                    k = int(np.argmin(fs))
                    ties = [j for j, f in enumerate(fs) if f - fs[k] < 1e-9 * max(1, fs[k])]
                    require(any(j in (0, len(fs) - 1) for j in ties), "refused-interior-minimum", f"{what}: {err}; grid {fs}")
        return
    out = np.asarray(out)
    require(np.isrealobj(out) and np.isfinite(out).all(), "result-not-finite", f"{what}: {out}")
    require(np.array_equal(np.asarray(q.s.multipliers), out), "solver-multipliers", f"{what}: {q.s.multipliers} vs {out}")
    if q.searched and q.chosen is not None:
        want = ref_parameters(data, q.chosen)
        if want is not None:
            require(np.allclose(out, want, rtol=1e-5, atol=1e-6), "returned-another-strength", lambda: f"{what}: returned "
                    f"{out.tolist()}; the search chose strength {q.chosen}: {want.tolist()}")
            sim.probe("chosen_strength_returned")
            if scn["reset"] and scn["search"] != "real" and q.chosen in best:      # scipy's own bracketing may lose its best point
                require(best[q.chosen] <= min(best.values()) + 1e-9 * max(1, min(best.values())), "not-the-best-strength",
                        f"{what}: chose {q.chosen}, objectives {best}")


def run(scn, sim):
    outs, n_eval, table = [], 0, {}
    sim.fault_budget = 1
    sim.shared_memory_pool = scn["search"] != "mock"
    if scn.get("rates"):
        sim.rates = dict(scn["rates"])
    for which in (0, 1):
        q = Search(scn, sim, which, scn["rng_seed"] + which)
        for attempt in range(4):
            what = f"search {which} attempt {attempt}"
            sim.armed = bool(scn.get("rates"))
            fired = sum(sim.faults.values())
            try:
                out, err = q.solve()
            except InjectedFault:
                require(np.array_equal(q.data, q.data0), "inputs-changed", f"{what}: the data changed")
                sim.probe("failed_search")
                sim.armed = False
                q.reset()
                continue
            finally:
                sim.armed = False
            require(sum(sim.faults.values()) == fired, "failure-hidden", f"{what}: {sim.faults} and no error")
            break
        else:
            raise Violation("not-retryable", what)
        check(scn, sim, q, out, err, what)
        n_eval += len(q.rounds)
        if attempt == 0 and scn["reset"]:
            for m, sample, st in q.rounds:
                other = table.setdefault(m.tobytes(), sample)
                require(np.array_equal(other, sample), "evaluation-order-dependence",
                        f"{what}: parameters {m.tolist()} drew a different sample in another search with the same generator")
                if other is not sample:
                    sim.probe("strength_shared_between_searches")
        outs.append(None if out is None else np.asarray(out))
        outs.append(repr(type(err)))
        if which == 1 and attempt == 0:
            # the whole solve again, undisturbed by faults, on another schedule and other ambient generators
            t = Search(scn, sim, which, scn["rng_seed"] + 7)
            np.random.rand(3)
            out2, err2 = t.solve()
            require(type(err) is type(err2) and (out is None) == (out2 is None) and
                    (out is None or np.array_equal(out, out2)), "not-reproducible", lambda: f"{what}: {out} / {err!r} and then "
                    f"{out2} / {err2!r} from the same generator")
    return {"digest": digest(outs), "nontrivial": n_eval > 0, "key": (scn["search"], scn["n"], scn["reset"], scn["rng_seed"])}
