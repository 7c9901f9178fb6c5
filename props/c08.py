"""C08: a model's observables and draws always belong to the parameters in force.

Histories of model operations are refined against the obvious reference: a dictionary with the parameters last set
and the generator.  Observables are recomputed by brute force; every draw is compared with a freshly built model that
has the parameters in force and a generator in the same state; for samplers that remember their chain, the parameters
are read at the energy callback instead."""
import numpy as np

from dst.core import InjectedFault, Sim
from . import eqn, kit
from .common import (ENERGY, all_states, boltzmann, check_sample, digest, observables, require, rng_state, rngof)

N_RUNS = {"quick": 420, "thorough": 6000}
KINDS = ("model_ising", "model_ising_py", "model_potts", "model_ising", "model_triplet", "model_potts_py")
OPS = ("msample", "msample", "msample", "mset", "mset", "msample_with", "mrng", "msetup", "mobs", "mobs")


class Spy:
    """Energy function that notes the parameters it is asked about."""

    def __init__(self, kind):
        self.kind = kind

    def __call__(self, s, theta):
        seen = Sim.current.spy
        t = tuple(float(x) for x in theta)
        if not seen or seen[-1] != t:
            seen.append(t)
        fn = ENERGY[self.kind]
        return np.array([fn([int(x) for x in row], theta) for row in np.asarray(s)], dtype=float)


def gen(seed, tier, i):
    r = rngof("C08", seed, i)
    kind = KINDS[i % len(KINDS)]
    sp = kit.space(kind)
    n = r.choice((2, 3, 4, 5, 6) if sp == "ising" else (3, 4, 5) if sp == "triplet" else (3, 4))
    cfg = kit.gen_cfg(r, kind, n)
    cpu = r.choice((1, 2, 3, 4, 8))
    if kind == "model_potts":
        cpu = max(cpu, 3)
    faulty = i % 5 == 4
    ops = []
    for _ in range(r.choice((4, 6, 8, 12))):
        op = kit.gen_op(r, cfg, cpu, OPS)
        if op["op"] == "msetup" and kind == "model_potts":
            op["size"] = cpu + r.choice((1, 3, 6))
        if op["op"] in ("msample", "msample_with") and kind == "model_potts" and r.random() < .3:
            op["size"] = None
        ops.append(op)
    if kind == "model_potts":
        cfg["size"] = cpu + r.choice((1, 4))
    return {"cfg": cfg, "cpu": cpu, "ops": ops, "rng_seed": r.randrange(2 ** 31),
            "rates": {"worker_late_error": .05, "worker_oserror": .05, "fork_eagain": .1} if faulty else {}}


def fresh(cfg, theta, size, state):
    rng = np.random.RandomState(0)
    m = kit.make_model(cfg, np.array(theta, dtype=float), rng)
    kit.setup_model(m, cfg, size, Spy(kit.space(cfg["kind"])))
    rng.set_state(state)            # building a sampler may itself draw from the generator
    return m, rng


def check_observables(m, cfg, th, what):
    sp, n = kit.space(cfg["kind"]), cfg["n"]
    if m.calc_p is None:
        return False
    obs = np.asarray(m.calc_observables(), dtype=float)
    want = observables(sp, n, th)
    require(obs.shape == want.shape and np.allclose(obs, want, atol=1e-8), "stale-observables",
            lambda: f"{what}: observables {obs.tolist()} but the parameters in force give {want.tolist()}")
    p = np.asarray(m.calc_p(), dtype=float)
    b = boltzmann(sp, n, th)
    pw = np.array([b[s] for s in all_states(sp, n)])
    require(p.shape == pw.shape and np.allclose(p, pw, atol=1e-9), "stale-probabilities",
            lambda: f"{what}: probabilities differ by up to {np.abs(p - pw).max() if p.shape == pw.shape else p.shape}")
    return True


def run(scn, sim):
    eqn.ensure()
    cfg, cpu = scn["cfg"], scn["cpu"]
    kind, n = cfg["kind"], cfg["n"]
    sp = kit.space(kind)
    sim.spy = []
    rng = np.random.RandomState(scn["rng_seed"])
    th = [float(x) for x in cfg["theta"]]
    cfg = dict(cfg)
    if cfg.pop("dtype", None) == "float32":
        th = [float(x) for x in np.array(th, dtype=np.float32)]
        cfg["theta"] = th
    m = kit.make(cfg, rng, Spy(sp))
    size = cfg["size"]
    native = not kind.endswith("_py") and sp != "triplet"
    sampled, outs = 0, []
    for oi, op in enumerate(scn["ops"]):
        what = f"operation {oi} {op}"
        name = op["op"]
        if name in ("msample", "msample_with"):
            use = [float(x) for x in op["theta"]] if name == "msample_with" else th
            req = op["size"] or size
            state = m.rng.get_state()
            sim.spy = []
            sim.armed = bool(scn["rates"])
            try:
                out = kit.apply(m, cfg, op)
            except InjectedFault:
                sim.probe("failed_call")
                sim.armed = False
                require(list(map(float, m.multipliers)) == th, "parameters-leaked", f"{what} failed and left the model with "
                        f"{m.multipliers}, set were {th}")
                continue
            finally:
                sim.armed = False
            check_sample(out["sample"], req, n, sp, what)
            seen = set(sim.spy)
            if not native:
                require(seen <= {tuple(use)}, "drawn-with-wrong-parameters",
                        lambda: f"{what}: energies were evaluated with {sorted(seen - {tuple(use)})[:2]}, in force: {use}")
                require(seen, "energy-callback-unused", what)
            remembers = not native and (op["parallel"] or req == 1)
            if not remembers:
                t, trng = fresh(cfg, use, size, state)
                quiet, sim.quiet = sim.quiet, True
                try:
                    kit.apply(t, cfg, dict(op, op="msample"))
                finally:
                    sim.quiet = quiet
                require(np.array_equal(t.sample, out["sample"]), "draws-not-of-current-model",
                        f"{what}: differs from a fresh model with parameters {use} and the same generator state")
                require(rng_state(trng) == rng_state(m.rng), "generator-not-advanced",
                        f"{what}: the model's generator is not where a fresh model leaves it")
                sim.probe("equals_fresh_model")
            else:
                require(rng_state(m.rng)[1:] != (digest(np.asarray(state[1])), state[2], state[3], float(state[4]).hex()),
                        "generator-not-used", f"{what}: sampling did not draw from the model's generator")
            sampled += 1
            outs.append(out)
        elif name == "mobs":
            if check_observables(m, cfg, th, what):
                sim.probe("observables")
        else:
            kit.apply(m, cfg, op) if name != "msetup" else kit.setup_model(m, cfg, op["size"], Spy(sp))
            if name == "mset":
                th = [float(x) for x in op["theta"]]
                check_observables(m, cfg, th, what)
            elif name == "msetup":
                size = op["size"]
                require(m.sample is None, "stale-sample", f"{what}: new sampler, but model.sample is still {m.sample}")
        require([float(x) for x in m.multipliers] == th, "parameters-leaked",
                f"{what}: the model now holds {m.multipliers}, set were {th}")
    check_observables(m, cfg, th, "at the end")
    return {"digest": digest(outs), "nontrivial": sampled > 0, "key": (kind, n, cpu, scn["rng_seed"])}
