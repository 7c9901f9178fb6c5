"""C07: a sampling call that fails reports the failure, shows no partial data, frees its workers and can be retried.

Each run: build an object, make some healthy calls, then calls under injected faults, then healthy calls again.
The object after the faults is compared with a twin that never met one."""
import numpy as np

from dst.core import InjectedError, InjectedFault, InjectedInterrupt, Sim, Violation
from . import kit
from .c05 import check_state
from .common import ENERGY, check_sample, digest, py_calc_e, require, rngof

N_RUNS = {"quick": 700, "thorough": 9000}
KINDS = ("metro_boost", "metro_py", "potts_boost", "metro_py", "wolff", "model_ising", "potts_py", "pt", "model_potts",
         "metro_triplet", "model_ising_py", "pt", "mch", "model_potts_py", "metro_boost", "sample_ising", "metro_py", "mch",
         "rmf")
FAULTS = ("fork_eagain", "fork_enomem", "worker_oserror", "worker_memory", "worker_late_error", "interrupt",
          "energy_error", "energy_interrupt")


class Energy:
    """Energy function handed to the package; can fail when the simulator says so."""

    def __init__(self, kind):
        self.kind = kind

    def __call__(self, s, theta):
        sim = Sim.current
        if sim.fault("energy_error"):
            raise InjectedError("injected: energy function failed")
        if sim.fault("energy_interrupt"):
            raise InjectedInterrupt("injected: interrupt in energy function")
        fn = ENERGY[self.kind]
        return np.array([fn([int(x) for x in row], theta) for row in np.asarray(s)], dtype=float)


def gen(seed, tier, i):
    r = rngof("C07", seed, i)
    kind = KINDS[i % len(KINDS)]
    cpu = r.choice((1, 2, 3, 4, 8))
    if kind in ("potts_boost", "model_potts"):
        cpu = max(cpu, 3)
    scn = {"kind": kind, "cpu": cpu, "rng_seed": r.randrange(2 ** 31), "retry_seed": r.randrange(2 ** 31)}
    names = list(FAULTS)
    r.shuffle(names)
    picked = names[:r.choice((1, 2, 3))]
    # the failing point moves over the whole call as the rate changes
    scn["rates"] = {k: r.choice((.004, .03, .15) if k.startswith("energy") else (.05, .2, .6)) for k in picked}
    scn["budget"] = r.choice((1, 1, 1, 2, 4))
    if kind in ("mch", "rmf"):
        scn.update(n=r.choice((3, 4)), data_seed=r.randrange(2 ** 31), rows=30, size=r.choice((20, 41)),
                   maxiter=r.choice((1, 3)), calls=r.choice((1, 2)))
        return scn
    cfg = scn["cfg"] = kit.gen_cfg(r, kind)
    names = {"metro_boost": ("par", "cond_par", "seq"), "metro_py": ("par", "par", "seq", "hist", "cond_seq"),
             "metro_triplet": ("par", "seq", "hist", "cond_seq"), "potts_boost": ("par", "seq"),
             "potts_py": ("par", "par", "seq", "hist"), "wolff": ("wpar", "wpar", "wseq"), "pt": ("pt", "pt_traj"),
             "sample_ising": ("sample_ising",)}.get(kind, ("msample", "msample", "msample_with"))
    scn["before"] = [kit.gen_op(r, cfg, cpu, names) for _ in range(r.choice((0, 1, 2)))]
    scn["faulty"] = [kit.gen_op(r, cfg, cpu, names) for _ in range(1 if kind == "pt" else r.choice((1, 2, 3)))]
    scn["after"] = [kit.gen_op(r, cfg, cpu, names if kind != "pt" else ("pt_traj",)) for _ in range(r.choice((1, 2)))]
    scn["construct"] = kind == "pt" and r.random() < .5
    if kind == "pt":
        scn["isolate"] = r.random() < .3
    return scn


def chain(e):
    while e is not None:
        if isinstance(e, InjectedFault):
            return True
        e = e.__cause__ or e.__context__
    return False


def pools_free(sim, first, what):
    for p in sim.pools[first:]:
        require(p._state != "RUN", "workers-not-released",
                lambda: f"{what}: the call is over and its pool of {p._processes} workers is still running")


def snap(obj):
    """What the object presents as its sample (and the energies that go with it)."""
    x = getattr(obj, "sample", None)
    if x is None:
        return None
    if isinstance(x, list):
        return [np.array(v, copy=True) for v in x]
    return np.array(x, copy=True)


def same(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))
    return np.array_equal(a, b)


def guarded(sim, call, what, faults=True):
    """Run `call`; returns (failed, value).  Only injected failures may come out."""
    first, n0 = len(sim.pools), sum(sim.faults.values())
    sim.armed = faults
    try:
        val = call()
        failed = False
    except BaseException as e:
        if not chain(e):
            raise
        failed, val = True, e
    finally:
        sim.armed = False
    pools_free(sim, first, what)
    fired = sum(sim.faults.values()) > n0
    return failed, fired, val


def new_rng(obj, seed):
    if hasattr(obj, "set_rng"):
        obj.set_rng(np.random.RandomState(seed))
    else:
        obj.rng = np.random.RandomState(seed)


def carries_state(cfg, op):
    """Does the outcome depend on chain states remembered from earlier calls?"""
    kind, name = cfg["kind"], op["op"]
    if kind in ("metro_py", "metro_triplet", "potts_py"):
        return "init" not in op and (name == "par" or name in ("seq", "hist") and op["size"] == 1)
    return kind == "pt" or (kind.endswith("_py") and name.startswith("msample"))


def validate(obj, cfg, op, out, cpu, what, th):
    n, sp = cfg["n"], kit.space(cfg["kind"])
    if op["op"] in ("pt", "pt_traj"):
        scn = {"n": n, "R": cfg["replicas"], "T": cfg["T"], "theta": cfg["theta"]}
        check_state(obj, scn, what=what)
        for x in out["sample"]:
            check_sample(x, op["size"], n, "ising", what)
        return
    if op["op"].startswith("w"):
        require(np.asarray(out["sample"]).shape == (op["size"], n) and set(np.unique(out["sample"])) <= {-1., 1.},
                "retry-invalid", f"{what}: {out['sample']}")
        return
    size = op.get("size") or cfg.get("size")
    check_sample(out["sample"], size, n, sp, what)
    if "E" in out and op["op"] != "par":
        for k in range(size):
            want = ENERGY[sp]([int(v) for v in out["sample"][k]], th)
            require(abs(out["E"][k] - want) < 1e-7, "retry-invalid", f"{what}: draw {k} has energy {want}, reported "
                    f"{out['E'][k]}")
    elif "E" in out:
        per = -(-size // cpu)
        for k in range(cpu):
            if (k + 1) * per <= size:
                want = ENERGY[sp]([int(v) for v in out["sample"][(k + 1) * per - 1]], th)
                require(abs(out["E"][k] - want) < 1e-7, "retry-invalid", f"{what}: replica {k} energy {want}, reported "
                        f"{out['E'][k]}")
    if op["op"] in ("cond_seq", "cond_par"):
        for j, v in op["fixed"]:
            require((out["sample"][:, j] == v).all(), "retry-invalid", f"{what}: fixed spin {j} moved")


def run(scn, sim):
    sim.fault_budget = scn["budget"]
    if scn["kind"] in ("mch", "rmf"):
        return run_solver(scn, sim)
    cfg = scn["cfg"]
    kind = cfg["kind"]
    sim.shared_memory_pool = kind == "pt" and not scn.get("isolate")
    energy = Energy(kit.space(kind))
    theta0 = np.array(cfg["theta"], dtype=float)
    nfail = 0

    def build(faults=False):
        return kit.make(cfg, np.random.RandomState(scn["rng_seed"]), energy)

    if scn["construct"]:
        failed, fired, val = guarded(sim, build, "constructor")
        if fired and not failed:
            sim.probe("constructed_despite_fault")
        nfail += failed
        sim.fault_budget = scn["budget"]
    obj = build()
    if obj is not None and hasattr(obj, "theta"):
        held = obj.theta
        held0 = np.array(held, copy=True)
    else:
        held = None
    for op in scn["before"]:
        kit.apply(obj, cfg, op)
    mult0 = np.array(obj.multipliers, copy=True) if kind.startswith("model") else None

    for oi, op in enumerate(scn["faulty"]):
        what = f"faulty call {oi} {op}"
        before = snap(obj)
        beforeE = np.array(obj.E, copy=True) if isinstance(getattr(obj, "E", None), np.ndarray) else None
        box = {}

        def call():
            box["out"] = kit.apply(obj, cfg, op)

        s0 = obj.rng.get_state() if getattr(obj, "rng", None) is not None else None
        failed, fired, val = guarded(sim, call, what)
        if not failed:
            if fired:
                # a transparent recovery would be fine, but only if the result is the undisturbed one
                require(transparent(scn, sim, cfg, op, box["out"], obj, s0), "failure-hidden",
                        f"{what}: {sim.faults} happened, no error reached the caller and the result is not the undisturbed one")
            continue
        nfail += 1
        sim.probe("failed:" + op["op"])
        after = snap(obj)
        require(after is None or same(after, before), "partial-sample",
                lambda: f"{what} failed with {val!r} but now presents {np.asarray(after).tolist()} as its sample "
                        f"(before: {None if before is None else np.asarray(before).tolist()})")
        if after is not None and beforeE is not None and isinstance(getattr(obj, "E", None), np.ndarray):
            require(np.array_equal(obj.E, beforeE), "partial-energies", f"{what} failed; energies {beforeE} became {obj.E} "
                    f"for an unchanged sample")
        if kind == "pt":
            ids = sorted(int(x.index) for x in obj.replicas)
            require(ids == list(range(cfg["replicas"])), "replica-lost", f"{what} failed; replicas left: {ids}")
        if held is not None and getattr(obj, "theta", None) is held:
            require(np.array_equal(held, held0), "inputs-changed", f"{what}: parameters became {held}")
        if mult0 is not None:
            require(np.array_equal(obj.multipliers, mult0), "inputs-changed", f"{what}: model parameters became "
                    f"{obj.multipliers}")
    require(np.array_equal(theta0, np.array(cfg["theta"])), "inputs-changed", "theta")

    # healthy again
    sim.fault_budget = 0
    twin = build() if kind != "pt" else None
    res = []
    for oi, op in enumerate(scn["after"]):
        what = f"healthy call {oi} {op} after {nfail} failures"
        if kind not in ("sample_ising",):
            new_rng(obj, scn["retry_seed"] + oi)
        failed, fired, out = guarded(sim, lambda: kit.apply(obj, cfg, op), what, faults=False)
        if failed:
            raise Violation("not-retryable", f"{what} failed again without any fault: {out!r}")
        use = op["theta"] if op["op"] == "msample_with" else cfg["theta"]
        validate(obj, cfg, op, out, scn["cpu"], what, use)
        res.append(digest(out))
        if twin is not None and not carries_state(cfg, op):
            quiet, sim.quiet = sim.quiet, True
            try:
                if kind != "sample_ising":
                    new_rng(twin, scn["retry_seed"] + oi)
                want = kit.apply(twin, cfg, op)
            finally:
                sim.quiet = quiet
            require(digest(want) == digest(out), "retry-differs",
                    f"{what}: an undisturbed object with the same generator gives a different result")
            sim.probe("retry_equals_twin")
    return {"digest": digest(res), "nontrivial": nfail > 0, "key": (kind, tuple(sorted(scn["rates"])), scn["rng_seed"])}


def transparent(scn, sim, cfg, op, out, obj, s0):
    if carries_state(cfg, op):
        return False
    twin = kit.make(cfg, np.random.RandomState(scn["rng_seed"]), Energy(kit.space(cfg["kind"])))
    if s0 is not None:
        twin.rng.set_state(s0)
    quiet, sim.quiet = sim.quiet, True
    try:
        return digest(kit.apply(twin, cfg, op)) == digest(out)
    finally:
        sim.quiet = quiet


def make_solver(scn, seed):
    from coniii import solvers
    d = np.random.RandomState(scn["data_seed"])
    data = d.choice([-1, 1], size=(scn["rows"], scn["n"]), p=[.4, .6])
    rng = np.random.RandomState(seed)
    if scn["kind"] == "mch":
        s = solvers.MCH(data, sample_size=scn["size"], rng=rng, iprint=False, sampler_kw={"iprint": False})
        kw = {"maxiter": scn["maxiter"], "n_iters": 5, "burn_in": 5, "full_output": True,
              "initial_guess": np.linspace(-.2, .3, len(s.constraints))}
    else:
        s = solvers.RegularizedMeanField(data, sample_size=scn["size"], rng=rng)
        kw = {}
    return s, data, kw


def run_solver(scn, sim):
    s, data, kw = make_solver(scn, scn["rng_seed"])
    d0 = data.copy()
    c0 = np.array(s.constraints, copy=True)
    g0 = np.array(kw["initial_guess"], copy=True) if "initial_guess" in kw else None
    nfail = 0
    for k in range(scn["calls"]):
        what = f"solve {k} of {scn['kind']}"
        s0 = s.model.rng.get_state()
        failed, fired, val = guarded(sim, lambda: s.solve(**kw), what)
        if fired and not failed:
            t, _, _ = make_solver(scn, scn["rng_seed"])
            t.model.rng.set_state(s0)
            sim.quiet = True
            want = t.solve(**kw)
            sim.quiet = False
            require(digest(want) == digest(val), "failure-hidden", f"{what}: {sim.faults} happened, no error reached the "
                    "caller and the result is not the undisturbed one")
        nfail += failed
        require(np.array_equal(data, d0), "inputs-changed", f"{what}: the data changed")
        require(np.array_equal(s.constraints, c0), "inputs-changed", f"{what}: the constraints changed")
        if g0 is not None:
            require(np.array_equal(kw["initial_guess"], g0), "inputs-changed", f"{what}: the guess changed")
    sim.fault_budget = 0
    s.model.set_rng(np.random.RandomState(scn["retry_seed"]))
    failed, fired, out = guarded(sim, lambda: s.solve(**kw), "healthy solve", faults=False)
    if failed:
        raise Violation("not-retryable", f"solve failed again without any fault: {out!r}")
    t, _, _ = make_solver(scn, scn["rng_seed"])
    t.model.set_rng(np.random.RandomState(scn["retry_seed"]))
    sim.quiet = True
    want = t.solve(**kw)
    sim.quiet = False
    require(digest(want) == digest(out), "retry-differs", f"{scn['kind']}: solve after {nfail} failed solves differs from a "
            "fresh solver with the same generator")
    return {"digest": digest(out), "nontrivial": nfail > 0, "key": (scn["kind"], tuple(sorted(scn["rates"])), scn["rng_seed"])}
