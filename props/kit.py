"""Workloads: objects of the package, described by JSON, and the public calls made on them."""
import numpy as np

from dst.core import HarnessError
from .common import (STATES, calc_e_for, ising_theta, potts_theta, py_calc_e, require, triplet_theta)

THETA = {"ising": ising_theta, "triplet": triplet_theta, "potts": potts_theta}

# what each kind of object can be asked to do
SAMPLER_KINDS = ("metro_boost", "metro_py", "metro_triplet", "potts_boost", "potts_py", "wolff", "pt")
MODEL_KINDS = ("model_ising", "model_triplet", "model_potts", "model_ising_py", "model_potts_py")
OPS = {
    "metro_boost": ("seq", "par", "cond_seq", "cond_par", "update"),
    "metro_py": ("seq", "hist", "par", "cond_seq", "update"),
    "metro_triplet": ("seq", "hist", "par", "cond_seq", "update"),
    "potts_boost": ("seq", "par", "update"),
    "potts_py": ("seq", "hist", "par", "update"),
    "wolff": ("wseq", "whist", "wpar"),
    "pt": ("pt", "pt_traj"),
    "model_ising": ("msample", "msample", "mset", "msample_with", "mrng", "msetup", "mobs"),
    "model_triplet": ("msample", "mset", "msample_with", "mrng", "msetup"),
    "model_potts": ("msample", "mset", "msample_with", "mrng", "msetup", "mobs"),
    "model_ising_py": ("msample", "mset", "msample_with", "mrng", "msetup", "mobs"),
    "model_potts_py": ("msample", "mset", "msample_with", "mrng", "msetup", "mobs"),
    "lattice": ("iterate", "iterate", "coarse"),
    "sample_ising": ("sample_ising",),
}


def space(kind):
    return "potts" if "potts" in kind else "triplet" if "triplet" in kind else "ising"


def gen_cfg(r, kind, n=None):
    sp = space(kind)
    n = n or r.choice((3, 4, 5, 6) if sp == "ising" else (3, 4, 5))
    if kind == "pt":
        n = r.choice((3, 4))
    if kind == "lattice":
        dim = [r.choice((2, 3, 4)), r.choice((2, 3, 4))]
        return {"kind": kind, "dim": dim, "J": round(r.uniform(.05, .6), 4), "n": dim[0] * dim[1],
                "h": [round(r.uniform(-.7, .7), 4) for _ in range(dim[0] * dim[1])],
                "hkind": r.choice(("float", "array", "int0"))}
    cfg = {"kind": kind, "n": n, "theta": THETA[sp](r, n)}
    if kind == "pt":
        cfg.update(replicas=r.choice((2, 3)), T=[1., r.choice((1.5, 2., 3.))], burn=r.choice((3, 10)),
                   exburn=r.choice((n, 2 * n)))
    if kind.startswith("potts_boost"):
        cfg["ncpu"] = r.choice((None, 2, 3))
    if kind.startswith("model"):
        cfg["size"] = r.choice((5, 9, 20))
    if kind.startswith(("metro", "potts")):
        cfg["dtype"] = r.choice(("float64",) * 4 + ("strided", "float32"))
    return cfg


def gen_op(r, cfg, cpu=4, names=None):
    kind, n = cfg["kind"], cfg["n"]
    op = {"op": r.choice(names or OPS[kind])}
    name = op["op"]
    if name in ("seq", "par", "hist", "cond_seq", "cond_par", "sample_ising"):
        op["size"] = r.choice((1, 2, 3, 5, 8, 13, cpu, cpu + 1, 2 * cpu - 1))
        if kind == "potts_boost" and name == "par":
            op["size"] = max(op["size"], (cfg.get("ncpu") or cpu - 1) + r.choice((1, 2, 5)))
        if kind == "sample_ising":
            op["seed"] = r.randrange(2 ** 31)
            op["parallel"] = r.random() < .5
        op["n_iters"] = r.choice((1, 2, n, 2 * n, 17))
        op["burn_in"] = r.choice((None, 1, n, 23))
        op["systematic"] = r.random() < .4
        if r.random() < .06:                     # long samples too, one step apart
            op["size"], op["n_iters"] = r.choice((64, 70, 129, 260)), 1
        if name == "hist":
            op["n_iters"] = r.choice((1, 2, n))
        if kind in ("metro_py", "metro_triplet", "potts_py") and name in ("seq", "par", "hist") and r.random() < .3:
            rows = cpu if name == "par" else 1
            st = STATES[space(kind)]
            op["init"] = [[r.choice(st) for _ in range(n)] for _ in range(rows)]
        if name.startswith("cond"):
            k = r.randrange(1, n)
            ix = sorted(r.sample(range(n), k))
            op["fixed"] = [[i, r.choice((-1, 1))] for i in ix]
            op["burn_in"] = r.choice((1, n, 23))
    elif name == "update":
        op["theta"] = THETA[space(kind)](r, n)
    elif name in ("wseq", "whist", "wpar"):
        op["size"] = r.choice((1, 2, 5, 9))
        op["n_iters"] = r.choice((1, 3, 10))
        if r.random() < .3:
            op["init"] = [[r.choice((-1., 1.)) for _ in range(n)] for _ in range(op["size"])]
    elif name in ("pt", "pt_traj"):
        op["size"] = r.choice((1, 2, 4))
    elif name in ("msample", "msample_with"):
        op.update(n_iters=r.choice((1, n, 11)), burn_in=r.choice((1, n, 20)), parallel=r.random() < .6,
                  size=r.choice((None, None, 7, 12, 7, 12, 7, 80)))
        if kind == "model_potts":
            op["size"] = cpu + r.choice((1, 4))
        if name == "msample_with":
            op["theta"] = THETA[space(kind)](r, n)
    elif name == "mset":
        op["theta"] = THETA[space(kind)](r, n)
    elif name == "mrng":
        op["seed"] = r.randrange(2 ** 31)
    elif name == "msetup":
        op["size"] = r.choice((5, 8, 15))
    elif name == "mobs":
        pass
    elif name == "iterate":
        op.update(n_iters=r.choice((1, n, 3 * n)), systematic=r.random() < .5)
    elif name == "coarse":
        op["factor"] = 2
    else:
        raise HarnessError(name)
    return op


def arr(x, dtype=None):
    a = np.array(x, dtype=float)
    if dtype == "float32":
        return a.astype(np.float32)
    if dtype == "strided":
        b = np.zeros(2 * len(a))
        b[::2] = a
        return b[::2]
    return a


def make(cfg, rng, calc_e=None):
    """Build the object.  `calc_e` overrides the energy function handed to the package."""
    from coniii import models, samplers
    kind, n = cfg["kind"], cfg["n"]
    sp = space(kind)
    if kind == "lattice":
        from coniii.ising.automaton import Ising2D
        h = {"float": float(cfg["h"][0]), "int0": 0,
             "array": np.array(cfg["h"]).reshape(cfg["dim"])}[cfg["hkind"]]
        return Ising2D(tuple(cfg["dim"]), cfg["J"], h=h, rng=rng)
    if kind == "sample_ising":
        return None
    theta = arr(cfg["theta"], cfg.get("dtype"))
    if kind == "metro_boost":
        return samplers.Metropolis(n, theta, rng=rng, iprint=False)
    if kind in ("metro_py", "metro_triplet"):
        return samplers.Metropolis(n, theta, calc_e or py_calc_e(sp), rng=rng, boost=False, iprint=False)
    if kind == "potts_boost":
        return samplers.Potts3(n, theta, rng=rng, n_cpus=cfg.get("ncpu"))
    if kind == "potts_py":
        return samplers.Potts3(n, theta, calc_e or py_calc_e("potts"), rng=rng, boost=False)
    if kind == "wolff":
        w = samplers.WolffIsing(theta[n:], theta[:n])
        w.rng = rng
        return w
    if kind == "pt":
        return samplers.ParallelTempering(n, theta, calc_e or py_calc_e("ising"), cfg["replicas"], Tbds=tuple(cfg["T"]),
                                          replica_burnin=cfg["burn"], rep_ex_burnin=cfg["exburn"], rng=rng)
    if kind.startswith("model"):
        m = make_model(cfg, theta, rng)
        setup_model(m, cfg, cfg["size"], calc_e)
        return m
    raise HarnessError(kind)


def make_model(cfg, theta, rng):
    from coniii import models
    n, sp = cfg["n"], space(cfg["kind"])
    if sp == "ising":
        return models.Ising(theta, rng=rng)
    if sp == "triplet":
        m = n + n * (n - 1) // 2
        return models.Triplet([theta[:n], theta[n:m], theta[m:]], rng=rng)
    return models.Potts3(theta, rng=rng)


def setup_model(m, cfg, size, calc_e=None):
    kw = {}
    if cfg["kind"].endswith("_py"):
        kw["boost"] = False
        m.calc_e = calc_e or py_calc_e(space(cfg["kind"]))
    if space(cfg["kind"]) != "potts":
        kw["iprint"] = False
        if cfg["kind"] == "model_triplet":
            m.calc_e = calc_e or py_calc_e("triplet")
    m.setup_sampler(sample_size=size, sampler_kwargs=kw)


def copy(x):
    return None if x is None else np.array(x, copy=True)


def apply(obj, cfg, op):
    """Make the call; return a dictionary of everything the caller can observe from it."""
    name = op["op"]
    if name in ("seq", "par", "hist"):
        kw = dict(n_iters=op["n_iters"], burn_in=op["burn_in"], systematic_iter=op["systematic"])
        init = None
        if "init" in op:
            kw["initial_sample"] = init = np.array(op["init"])
        if name == "hist":
            kw["saveHistory"] = True
        ret = (obj.generate_sample_parallel if name == "par" else obj.generate_sample)(op["size"], **kw)
        out = {"sample": copy(obj.sample), "hist": copy(ret) if name == "hist" else None}
        if not cfg["kind"].endswith("boost"):
            out["E"] = np.ravel(np.array([np.ravel(e) for e in obj.E], dtype=float))
        if init is not None:
            require(np.array_equal(init, np.array(op["init"])), "initial-sample-mutated",
                    f"{op}: initial sample became {init.tolist()}")
        return out
    if name in ("cond_seq", "cond_par"):
        kw = dict(n_iters=op["n_iters"], burn_in=op["burn_in"], systematic_iter=op["systematic"])
        if cfg["kind"].endswith("boost"):
            kw["parallel"] = name == "cond_par"
        fixed = [tuple(x) for x in op["fixed"]]
        obj.generate_cond_sample(op["size"], fixed, **kw)
        out = {"sample": copy(obj.sample)}
        if not cfg["kind"].endswith("boost"):
            out["E"] = np.ravel(np.array(obj.E, dtype=float))
        return out
    if name == "update":
        obj.update_parameters(arr(op["theta"]))
        return {}
    if name in ("wseq", "whist", "wpar"):
        init = np.array(op["init"], dtype=float) if "init" in op else None
        if name == "wpar":
            s = obj.generate_sample_parallel(op["size"], op["n_iters"], initialSample=init)
        else:
            s = obj.generate_sample(op["size"], op["n_iters"], initialSample=init, save_history=name == "whist")
        if init is not None:
            require(np.array_equal(init, np.array(op["init"])), "initial-sample-mutated", f"{op}")
        if name == "whist":
            return {"sample": copy(s[0]), "hist": copy(s[1])}
        return {"sample": copy(s)}
    if name in ("pt", "pt_traj"):
        h = obj.generate_sample(op["size"], save_exchange_trajectory=name == "pt_traj")
        return {"sample": [copy(x) for x in obj.sample], "hist": copy(h), "beta": copy(obj.beta),
                "E": [float(np.ravel(rep.E)[0]) for rep in obj.replicas]}
    if name in ("msample", "msample_with"):
        kw = {}
        if name == "msample_with":
            kw["multipliers"] = arr(op["theta"])
        obj.generate_sample(op["n_iters"], op["burn_in"], sample_size=op["size"], parallel=op["parallel"], **kw)
        return {"sample": copy(obj.sample)}
    if name == "mset":
        obj.set_multipliers(arr(op["theta"]))
        return {}
    if name == "mrng":
        obj.set_rng(np.random.RandomState(op["seed"]))
        return {}
    if name == "msetup":
        setup_model(obj, cfg, op["size"])
        return {}
    if name == "mobs":
        if obj.calc_p is None:          # no equation file for this size
            return {}
        return {"obs": copy(obj.calc_observables()), "p": copy(obj.calc_p())}
    if name == "iterate":
        obj.iterate(op["n_iters"], systematic=op["systematic"])
        return {"lattice": copy(obj.lattice)}
    if name == "coarse":
        # rounds of exact ties come from the process-wide generator by design: only the non-tied blocks are kept
        from coniii.ising.automaton import coarse_grain
        f = op["factor"]
        c = coarse_grain(obj.lattice, f)
        X, Y = c.shape
        tot = obj.lattice[:X * f, :Y * f].astype(int).reshape(X, f, Y, f).sum((1, 3))
        return {"coarse": np.where(tot == 0, 0, c)}
    if name == "sample_ising":
        from coniii.samplers import sample_ising
        return {"sample": copy(sample_ising(arr(cfg["theta"]), op["size"], seed=op["seed"], parallel=op["parallel"],
                                            generate_sample_kw=dict(n_iters=op["n_iters"], burn_in=op["burn_in"])))}
    raise HarnessError(name)


def object_rng(obj):
    """The generator the object holds, if any."""
    return getattr(obj, "rng", None)
