"""C06: reported energies and histories match the reported states over chains of calls.

Every call's result is refined against a small model of the chain: energies are recomputed by the plain reference,
a history must be the energies of some path of single-site updates that passes through the reported draws, and
calls without any update (n_iters=0) must hand back the supplied or remembered states themselves."""
import numpy as np

from dst.core import InjectedFault
from . import kit
from .common import ENERGY, STATES, all_states, check_sample, digest, py_calc_e, calc_e_for, require, rngof

N_RUNS = {"quick": 420, "thorough": 5000}
KINDS = ("metro_py", "metro_triplet", "potts_py", "metro_py", "potts_py", "model_ising_py", "model_potts_py", "wolff",
         "pt")


def gen(seed, tier, i):
    r = rngof("C06", seed, i)
    kind = KINDS[i % len(KINDS)]
    cfg = kit.gen_cfg(r, kind, r.choice((2, 3, 4, 5) if "potts" not in kind else (2, 3, 4)) if kind != "pt" else None)
    cfg.pop("dtype", None)
    cpu = r.choice((1, 1, 2, 3, 4, 8))
    n = cfg["n"]
    ops = []
    for _ in range(r.choice((3, 5, 7)) if kind != "pt" else 2):
        op = kit.gen_op(r, cfg, cpu)
        if op["op"] in ("seq", "par", "hist"):
            if r.random() < .35:
                op["size"] = r.choice((1, cpu))
            if r.random() < .3:                        # no update at all: the state itself comes back
                op["n_iters"], op["burn_in"] = 0, None
            elif op["op"] == "hist":
                op["n_iters"] = r.choice((1, 1, 2, n))
                op["burn_in"] = r.choice((None, 1, 7))
                op["size"] = min(op["size"], 6)
            elif r.random() < .5:
                op["n_iters"], op["burn_in"] = r.choice((1, 2, n)), 1
        ops.append(op)
    return {"cfg": cfg, "cpu": cpu, "ops": ops, "rng_seed": r.randrange(2 ** 31), "jit": i % 37 == 5,
            "faulty": i % 4 == 3,
            "rates": {"worker_late_error": .08, "worker_oserror": .05, "fork_eagain": .1} if i % 4 == 3 else {}}


def close(a, b):
    return abs(float(a) - float(b)) < 1e-7


def path_exists(hist, draws, sp, n, th, n_iters, systematic, what, start=None):
    """Is there a path of single-site updates whose energies are `hist`, passing through every draw?"""
    st = all_states(sp, n)
    E = {s: ENERGY[sp](s, th) for s in st}
    now = {s for s in st if close(E[s], hist[0])}
    if start is not None:
        now &= {start}
    require(now, "history-start-wrong", f"{what}: first entry {hist[0]} is not the energy of "
            + (f"the supplied state {start} ({E[start]})" if start is not None else "any state"))
    k = 0
    for d, row in enumerate(draws):
        for j in range(n_iters):
            k += 1
            nxt = set(s for s in now if close(E[s], hist[k]))
            sites = [j % n] if systematic else range(n)
            for s in now:
                for site in sites:
                    for v in STATES[sp]:
                        if v != s[site]:
                            t = s[:site] + (v,) + s[site + 1:]
                            if close(E[t], hist[k]):
                                nxt.add(t)
            require(nxt, "history-not-a-path", lambda: f"{what}: entry {k} = {hist[k]} is not reachable by one update "
                    f"from a state of energy {hist[k - 1]}")
            now = nxt
        t = tuple(int(x) for x in row)
        require(t in now, "history-misses-draw", lambda: f"{what}: after {k} updates the history says energy {hist[k]}, "
                f"draw {d} is {t} with energy {E[t]}")
        now = {t}


def run(scn, sim):
    cfg, n, cpu = scn["cfg"], scn["cfg"]["n"], scn["cpu"]
    kind = cfg["kind"]
    sp = kit.space(kind)
    sim.cpu_count = cpu
    sim.shared_memory_pool = kind == "pt"
    calc = calc_e_for(sp) if scn["jit"] else py_calc_e(sp)
    obj = kit.make(cfg, np.random.RandomState(scn["rng_seed"]), calc)
    th = list(cfg["theta"])
    if kind == "pt" and scn["rates"]:
        scn["rates"] = {}
    seq_state = None            # state the next one-draw sequential call must start from, when known
    par_states = None
    nontrivial = False
    outs = []
    sim.armed = scn["faulty"]
    for oi, op in enumerate(scn["ops"]):
        name = op["op"]
        what = f"call {oi} {op}"
        try:
            out = kit.apply(obj, cfg, op)
        except InjectedFault:
            sim.probe("failed_call")
            seq_state = par_states = None
            continue
        if name in ("update", "mset"):
            th = list(op["theta"])
            continue
        outs.append(out)
        if name in ("seq", "hist", "par"):
            size, ni = op["size"], op["n_iters"]
            s = out["sample"]
            check_sample(s, size, n, sp, what)
            init = op.get("init")
            no_update = ni == 0 and op["burn_in"] is None
            E = np.asarray(out["E"])
            if name != "par":
                require(E.shape == (size,), "energies-missing", f"{what}: {size} draws, energies {E.shape}")
                for k in range(size):
                    want = ENERGY[sp]([int(v) for v in s[k]], th)
                    require(close(E[k], want), "energy-drift", f"{what}: draw {k} = {s[k].tolist()} has energy {want}, "
                            f"reported {E[k]}")
                nontrivial = True
                if no_update:
                    known = init[0] if init is not None else seq_state if size == 1 else None
                    if known is not None:
                        sim.probe("continued_from_known_state")
                        require(all([int(v) for v in row] == list(known) for row in s), "did-not-start-from-known-state",
                                f"{what}: no update was asked for, state was {known}, draws {s.tolist()}")
                if name == "hist":
                    h = np.asarray(out["hist"])
                    require(h.shape == (size * ni + 1,), "history-length", f"{what}: history {h.shape}")
                    start = tuple(init[0]) if init is not None and no_update else None
                    path_exists(h, s, sp, n, th, ni, op["systematic"], what, start)
                    for k in range(size):
                        require(close(h[(k + 1) * ni], E[k]), "history-disagrees-with-energies",
                                f"{what}: draw {k}: history {h[(k + 1) * ni]}, energy {E[k]}")
                    sim.probe("history")
                seq_state, par_states = [int(v) for v in s[-1]], None
                if cpu == 1:
                    par_states = [seq_state]
            else:
                per = -(-size // cpu)
                require(E.shape == (cpu,), "energies-missing", f"{what}: {cpu} replicas, energies {E.shape}")
                last = getattr(obj, "_samples", None)
                last = np.asarray(last) if last is not None else None
                finals = []
                for k in range(cpu):
                    ix = (k + 1) * per - 1
                    if ix < size:
                        st = [int(v) for v in s[ix]]
                        if last is not None and last.shape == (cpu, n):
                            require(st == [int(v) for v in last[k]], "remembered-state-wrong",
                                    f"{what}: replica {k} ended in {st}, remembered {last[k].tolist()}")
                    elif last is not None and last.shape == (cpu, n):
                        st = [int(v) for v in last[k]]
                    else:
                        finals.append(None)
                        continue
                    finals.append(st)
                    want = ENERGY[sp](st, th)
                    require(close(E[k], want), "energy-drift", f"{what}: replica {k} ended in {st} with energy {want}, "
                            f"reported {E[k]}")
                nontrivial = True
                if no_update:
                    known = init if init is not None else par_states
                    if known is not None:
                        sim.probe("continued_from_known_state")
                        for ix in range(size):
                            want = known[ix // per]
                            require([int(v) for v in s[ix]] == list(want), "did-not-start-from-known-state",
                                    f"{what}: no update was asked for, replica {ix // per} was in {want}, draw {s[ix].tolist()}")
                par_states = finals if None not in finals else None
                seq_state = finals[0] if cpu == 1 else None
        elif name == "cond_seq":
            E, s = np.asarray(out["E"]), out["sample"]
            check_sample(s, op["size"], n, sp, what)
            require(E.shape == (op["size"],), "energies-missing", f"{what}: energies {E.shape}")
            for k in range(op["size"]):
                want = ENERGY[sp]([int(v) for v in s[k]], th)
                require(close(E[k], want), "energy-drift", f"{what}: draw {k} = {s[k].tolist()} energy {want}, reported {E[k]}")
            nontrivial = True
        elif name in ("msample", "msample_with"):
            smp = obj.sampler
            s, E = np.asarray(obj.sample), getattr(smp, "E", None)
            use = op["theta"] if name == "msample_with" else th
            if not op["parallel"] and E is not None:
                E = np.ravel(E)
                require(len(E) == len(s), "energies-missing", f"{what}: {len(s)} draws, {len(E)} energies")
                for k in range(len(s)):
                    want = ENERGY[sp]([int(v) for v in s[k]], use)
                    require(close(E[k], want), "energy-drift", f"{what}: draw {k} {s[k].tolist()} has energy {want}, "
                            f"reported {E[k]}")
                nontrivial = True
        elif name == "whist":
            s, h = out["sample"], out["hist"]
            require(h.shape == (op["size"], n, op["n_iters"] + 1), "history-length", f"{what}: {h.shape}")
            require(np.array_equal(h[:, :, -1], s), "history-misses-draw", f"{what}: last history entry is not the draw")
            if "init" in op:
                require(np.array_equal(h[:, :, 0], np.array(op["init"])), "history-start-wrong", f"{what}: history does not "
                        "start with the supplied states")
            require(set(np.unique(h)) <= {-1., 1.}, "history-not-a-path", f"{what}: {np.unique(h)}")
            # a cluster step flips a set of aligned-after-gauge spins or nothing; always contains the initial site if any
            nontrivial = True
        elif name in ("pt", "pt_traj"):
            for k in range(cfg["replicas"]):
                want = float(obj.beta[k]) * ENERGY["ising"]([int(v) for v in obj.replicas[k].sample[0]], th)
                require(close(out["E"][k], want), "energy-drift", f"{what}: slot {k} energy {want}, reported {out['E'][k]}")
            nontrivial = True
    return {"digest": digest(outs), "nontrivial": nontrivial, "key": (kind, n, cpu, len(scn["ops"]), scn["rng_seed"])}
