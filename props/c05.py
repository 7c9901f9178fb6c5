"""C05: parallel tempering: ladder, permutations, energies, slot distributions, exchange probability."""
import itertools
import math

import numpy as np
from scipy.stats import binom

from . import kit
from .common import (boltzmann, check_sample, chi2_pvalue, digest, draw, e_ising, metropolis_gap_iters, py_calc_e, require,
                     rngof)

N_RUNS = {"quick": 200, "thorough": 2400}
PMIN = 1e-9


def gen(seed, tier, i):
    r = rngof("C05", seed, i)
    mode = ("law", "state", "tally", "ladder", "tally", "state")[i % 6]
    n = r.choice((2, 3)) if mode == "law" else r.choice((2, 3, 4))
    R = r.choice((2, 3)) if mode == "law" else (2, 2, 3, 4)[i // 6 % 4] if mode == "tally" else r.choice((2, 3, 4, 5))
    T0 = r.choice((1., 1., .8, 1.25))
    scn = {"mode": mode, "n": n, "R": R, "T": [T0, T0 * r.choice((1.4, 2., 3.5))], "cpu": r.choice((1, 2, 4, 8)),
           "rng_seed": r.randrange(2 ** 31)}
    th = kit.ising_theta(r, n, r.choice((.6, 1., 1.4) if mode != "law" else (1., 1.5)))
    if mode == "ladder":             # an energy function of the user's with a deep narrow well: neighbours accept very differently
        n, R = scn["n"], scn["R"] = r.choice((4, 5, 6)), r.choice((3, 3, 4, 5))
        scn["T"][1] = T0 * r.choice((2., 4., 8.))
        # the well starts to hold the state somewhere on the ladder
        th = [round(n * math.log(2) / r.uniform(.3, .9) * T0, 6)] + [round(r.uniform(-.15, .15), 6) for _ in range(n)]
    scn["theta"] = th
    if mode == "law":
        it = metropolis_gap_iters("ising", n, [t / T0 for t in th], eps=.03, systematic=True, cap=60)
        scn["exburn"] = max(n, min(it, 30))
        scn["N"] = 4500
        scn["thin"] = 3
    elif mode in ("state", "ladder"):
        scn["exburn"] = r.choice((n, 2 * n, 2 * n + 1))
        scn["calls"] = [[r.choice((1, 2, 5)), r.random() < .6] for _ in range(r.choice((1, 2, 3)))]
        scn["isolate"] = i % 3 == 0
    else:
        scn["exburn"] = n
        if R > 2:
            scn["n"] = n = 3
            scn["T"][1] = T0 * r.choice((3., 5., 8.))
            scn["theta"] = kit.ising_theta(r, n, r.choice((.6, 1., 1.6)))
        states = list(itertools.product((-1, 1), repeat=n))
        # the states put into the slots
        scn["carriers"] = [list(x) for x in (r.sample(states, R) if R > 2 or r.random() < .8 else [r.choice(states)] * 2)]
        scn["N"] = 1200
    scn["burn"] = r.choice((5, 5 * n))
    return scn


def calc_e_well(s, theta):
    """Energy function of a user: a well at the all-up state in random fields."""
    return -theta[0] * (s == 1).all(1) - s.dot(theta[1:])


def energy(s, scn):
    if scn.get("mode") == "ladder":
        th = scn["theta"]
        return -th[0] * all(v == 1 for v in s) - math.fsum(a * b for a, b in zip(th[1:], s))
    return e_ising(s, scn["theta"])


def check_state(pt, scn, sample=None, what=""):
    n, R, th = scn["n"], scn["R"], np.array(scn["theta"])
    beta = np.asarray(pt.beta, dtype=float)
    require(beta.shape == (R,), "ladder-wrong-length", f"{beta}")
    require((np.diff(beta) > 0).all(), "ladder-not-ordered", f"{what}: {beta}")
    require(math.isclose(beta[-1], 1 / scn["T"][0], rel_tol=1e-12), "ladder-top-moved",
            f"{what}: requested lowest temperature {scn['T'][0]}, ladder {beta}")
    ids = sorted(int(rep.index) for rep in pt.replicas)
    require(ids == list(range(R)), "replica-lost", f"{what}: replica identities {ids}")
    for k, rep in enumerate(pt.replicas):
        s = np.asarray(rep.sample)
        check_sample(s, 1, n, "ising", f"{what}: state of slot {k}")
        require(np.allclose(np.asarray(rep.theta, dtype=float), th * beta[k], atol=1e-10), "slot-parameters-wrong",
                f"{what}: slot {k} has parameters {rep.theta} at beta {beta[k]}")
        want = beta[k] * energy([int(v) for v in s[0]], scn)
        got = np.ravel(rep.E)
        require(got.size == 1 and abs(float(got[0]) - want) < 1e-8, "slot-energy-wrong",
                f"{what}: slot {k} holds state {s[0].tolist()} with energy {want} at beta {beta[k]} but reports {got}")


def build(scn, sim):
    from coniii.samplers import ParallelTempering
    sim.shared_memory_pool = not scn.get("isolate", False)
    rng = np.random.RandomState(scn["rng_seed"])
    e = calc_e_well if scn["mode"] == "ladder" else py_calc_e("ising")
    return ParallelTempering(scn["n"], np.array(scn["theta"]), e, scn["R"], Tbds=tuple(scn["T"]),
                             replica_burnin=scn["burn"], rep_ex_burnin=scn["exburn"], rng=rng)


def run(scn, sim):
    sim.log_on = scn["mode"] in ("state", "ladder")
    pt = build(scn, sim)
    n, R = scn["n"], scn["R"]
    check_state(pt, scn, what="after construction")
    mode = scn["mode"]
    sim.probe(mode)
    if mode == "tally":
        return tally(pt, scn, sim)
    calls = scn["calls"] if mode != "law" else [[scn["N"], True]]
    res = []
    for size, traj in calls:
        h = pt.generate_sample(size, save_exchange_trajectory=traj)
        require(isinstance(pt.sample, list) and len(pt.sample) == R, "slots-missing", f"{type(pt.sample)}")
        for k in range(R):
            check_sample(pt.sample[k], size, n, "ising", f"slot {k}")
            require(np.array_equal(pt.sample[k][-1], np.asarray(pt.replicas[k].sample)[0]), "last-draw-not-slot-state",
                    f"slot {k}: last draw {pt.sample[k][-1]} but the slot holds {pt.replicas[k].sample}")
        if traj:
            h = np.asarray(h)
            require(h.shape == (size, R), "trajectory-shape", f"{h.shape} for {size} draws of {R} replicas")
            for row in h:
                require(sorted(row.tolist()) == list(range(R)), "trajectory-not-permutation", f"row {row}")
            require([int(rep.index) for rep in pt.replicas] == h[-1].tolist(), "trajectory-not-current",
                    f"last row {h[-1]}, slots hold {[rep.index for rep in pt.replicas]}")
            if (np.diff(h, axis=0) != 0).any():
                sim.probe("exchange_seen")
        check_state(pt, scn, what=f"after {size} draws")
        res.append([x.copy() for x in pt.sample])
    if mode == "law":
        for k in range(R):
            x = pt.sample[k][5::scn["thin"]]
            pv, stat, odd = chi2_pvalue(x, boltzmann("ising", n, scn["theta"], beta=float(pt.beta[k])))
            require(pv > PMIN, "wrong-slot-distribution",
                    f"slot {k} of {R} at beta {pt.beta[k]}: {len(x)} draws, chi2={stat:.1f}, p={pv:.2g}")
            sim.count("draws", len(x))
            sim.count("p<0.01", int(pv < .01))
    return {"digest": digest(res), "key": (mode, n, R, scn["T"][1])}


def tally(pt, scn, sim):
    """Freeze the Metropolis part, put known states into the slots, count exchanges.

    Two slots: each exchange has the detailed-balance probability.  More: whatever scheme visits the pairs, a round leaves the
    joint law of the slots invariant, so rounds that start from that law must end in it."""
    b = [float(x) for x in pt.beta]
    n, R = scn["n"], scn["R"]
    states = [np.array([s]) for s in scn["carriers"]]
    e = [energy([int(v) for v in s[0]], scn) for s in states]
    called = []

    def put(order):
        for k, c in enumerate(order):
            rep = pt.replicas[k]
            rep.sample, rep.index = states[c].copy(), c
            if getattr(rep, "_samples", None) is not None:
                rep._samples = states[c].copy()
            rep.E = np.array([e[c] * b[k]])
    for rep in pt.replicas:
        rep.generate_sample = lambda *a, **kw: called.append(1)
    put(range(R))
    law = {s: math.exp(-sum(bk * e[c] for bk, c in zip(b, s))) for s in itertools.permutations(range(R))}
    Z = math.fsum(law.values())
    law = {s: w / Z for s, w in law.items()}
    q = np.random.RandomState(scn["rng_seed"] ^ 99)
    starts = q.choice(len(law), size=scn["N"], p=list(law.values()))
    orders = list(law)
    ends, trials, swaps = [], [0, 0], [0, 0]
    for t in range(scn["N"]):
        if R > 2:
            put(orders[starts[t]])
        where = int(pt.replicas[0].index)         # carrier in slot 0
        pt.generate_sample(1, save_exchange_trajectory=True)
        if not called:                            # the replicas are moved in some other way: nothing is frozen
            sim.probe("tally_not_possible")
            return {"digest": "", "key": ("tally",), "nontrivial": False}
        ids = [int(rep.index) for rep in pt.replicas]
        ends.append(ids)
        if R == 2:
            trials[where] += 1
            swaps[where] += ids[0] != where
        for k in range(R):
            rep = pt.replicas[k]
            c = ids[k]
            chain = getattr(rep, "_samples", None)
            ok = np.array_equal(rep.sample, states[c]) and (chain is None or np.array_equal(chain, states[c]))
            require(ok and sorted(ids) == list(range(R)), "exchange-tears-replica",
                    f"slot {k}: identity {c} but state {rep.sample} / chain state {chain}")
            require(abs(float(np.ravel(rep.E)[0]) - e[c] * b[k]) < 1e-9, "slot-energy-wrong",
                    f"slot {k} at beta {b[k]} holds carrier {c} with energy {e[c]} but reports {rep.E}")
    for where in (0, 1):
        if not trials[where]:
            continue
        E0, E1 = e[where], e[1 - where]
        p = min(1., math.exp((b[0] - b[1]) * (E0 - E1)))
        lo, hi = binom.cdf(swaps[where], trials[where], p), binom.sf(swaps[where] - 1, trials[where], p)
        require(min(lo, hi) > 1e-10, "wrong-exchange-probability",
                f"{swaps[where]} exchanges in {trials[where]} trials; detailed balance gives probability {p:.4f} "
                f"(beta {b}, energies {E0}, {E1})")
    if R > 2:
        pv, stat, odd = chi2_pvalue(ends, law)
        require(pv > PMIN, "exchange-breaks-balance", f"{len(ends)} rounds of exchanges started from the joint equilibrium law of "
                f"{R} slots do not end in it: chi2={stat:.1f}, p={pv:.2g} (beta {b}, energies {e})")
        sim.probe("joint_law_of_slots")
        if set(map(tuple, ends)) - {tuple(orders[0])} and len(set(map(tuple, ends))) > 2:
            sim.probe("joint_law_mixed")
    sim.count("exchange_trials", scn["N"])
    return {"digest": digest([trials, swaps, ends]), "key": ("tally", n, R, tuple(e), scn["T"][1])}
