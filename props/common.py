"""Shared helpers: reference models (brute force, trivially simple) and comparisons."""
import hashlib
import itertools
import math
import random

import numpy as np
from scipy.stats import chi2 as _chi2

from dst.core import HarnessError, Violation
from dst.seams import _real


def rngof(*parts):
    return random.Random(":".join(str(p) for p in parts))


def require(cond, cls, detail=""):
    if not cond:
        raise Violation(cls, detail() if callable(detail) else detail)


# ------------------------------------------------------------------ parameters
def draw(r, lo, hi):
    """Uniform magnitude with random sign: keeps clear of 0 so chains mix (see eff. period note)."""
    return round(r.choice((-1, 1)) * r.uniform(lo, hi), 6)


def ising_theta(r, n, scale=1.0):
    return [draw(r, .25 * scale, .9 * scale) for _ in range(n)] + [draw(r, .1 * scale, .6 * scale) for _ in
                                                                  range(n * (n - 1) // 2)]


def triplet_theta(r, n, scale=1.0):
    return ising_theta(r, n, scale) + [draw(r, .1 * scale, .4 * scale) for _ in range(math.comb(n, 3))]


def potts_theta(r, n, scale=1.0):
    return [draw(r, .2 * scale, .9 * scale) for _ in range(3 * n)] + [draw(r, .1 * scale, .6 * scale) for _ in
                                                                     range(n * (n - 1) // 2)]


# ------------------------------------------------------------------ reference energies (plain Python)
def e_ising(s, th):
    n = len(s)
    e = -sum(th[i] * s[i] for i in range(n))
    k = n
    for i in range(n):
        for j in range(i + 1, n):
            e -= th[k] * s[i] * s[j]
            k += 1
    return e


def e_triplet(s, th):
    n = len(s)
    m = n + n * (n - 1) // 2
    e = e_ising(s, th[:m])
    k = m
    for i, j, l in itertools.combinations(range(n), 3):
        e -= th[k] * s[i] * s[j] * s[l]
        k += 1
    return e


def e_potts(s, th):
    n = len(s)
    e = -sum(th[int(s[i]) * n + i] for i in range(n))
    k = 3 * n
    for i in range(n):
        for j in range(i + 1, n):
            if s[i] == s[j]:
                e -= th[k]
            k += 1
    return e


ENERGY = {"ising": e_ising, "triplet": e_triplet, "potts": e_potts}
STATES = {"ising": (-1, 1), "triplet": (-1, 1), "potts": (0, 1, 2)}


def all_states(kind, n):
    return list(itertools.product(STATES[kind], repeat=n))


def cond_states(kind, n, fixed=None):
    return list(itertools.product(*[(fixed[i],) if fixed and i in fixed else STATES[kind] for i in range(n)]))


def boltzmann(kind, n, th, beta=1.0, fixed=None):
    """{state: probability} by brute force; `fixed` conditions on {index: value}."""
    st = cond_states(kind, n, fixed)
    e = [-beta * ENERGY[kind](s, th) for s in st]
    m = max(e)
    w = [math.exp(x - m) for x in e]
    z = math.fsum(w)
    return {s: x / z for s, x in zip(st, w)}


def observables(kind, n, th):
    """Exact observables in the package's order."""
    p = boltzmann(kind, n, th)
    if kind == "potts":
        out = []
        for k in range(3):
            for i in range(n):
                out.append(math.fsum(w for s, w in p.items() if s[i] == k))
        for i, j in itertools.combinations(range(n), 2):
            out.append(math.fsum(w for s, w in p.items() if s[i] == s[j]))
        return np.array(out)
    out = [math.fsum(w * s[i] for s, w in p.items()) for i in range(n)]
    out += [math.fsum(w * s[i] * s[j] for s, w in p.items()) for i, j in itertools.combinations(range(n), 2)]
    if kind == "triplet":
        out += [math.fsum(w * s[i] * s[j] * s[k] for s, w in p.items()) for i, j, k in
                itertools.combinations(range(n), 3)]
    return np.array(out)


# ------------------------------------------------------------------ statistics
def chi2_pvalue(sample, probs, min_expected=5.):
    """Goodness of fit of an integer sample against {state: prob}; merges rare states."""
    counts = {}
    for row in np.asarray(sample):
        t = tuple(int(x) for x in row)
        counts[t] = counts.get(t, 0) + 1
    for t in counts:
        if t not in probs:
            return 0., float("inf"), t
    N = len(sample)
    x, df, oe, oo = 0., 0, 0., 0
    for s, p in sorted(probs.items(), key=lambda kv: -kv[1]):
        e, o = N * p, counts.get(s, 0)
        if e < min_expected:
            oe += e
            oo += o
            continue
        x += (o - e) ** 2 / e
        df += 1
    if oe > 0:
        x += (oo - oe) ** 2 / max(oe, 1e-300) if oe >= 1 else (max(0, oo - oe - 6 * math.sqrt(max(oe, 1))) ** 2)
        df += 1
    df -= 1
    if df < 1:
        return 1., 0., None
    return float(_chi2.sf(x, df)), x, None


def metropolis_gap_iters(kind, n, th, eps=1e-4, cap=2000, fixed=None, systematic=False):
    """How many single-spin updates until the slowest mode has decayed to eps (random or sweep order).
    Computed for the textbook Metropolis chain; only used to choose the workload's thinning."""
    st = cond_states(kind, n, fixed)
    ix = {s: i for i, s in enumerate(st)}
    free = [i for i in range(n) if not fixed or i not in fixed]
    N = len(st)
    E = np.array([ENERGY[kind](s, th) for s in st])

    def kernel(i):
        P = np.zeros((N, N))
        for a, s in enumerate(st):
            props = [v for v in STATES[kind] if v != s[i]]
            for v in props:
                t = list(s)
                t[i] = v
                b = ix[tuple(t)]
                acc = min(1., math.exp(-(E[b] - E[a]))) / len(props)
                P[a, b] += acc
            P[a, a] += 1 - P[a].sum()
        return P
    if systematic:
        P = np.eye(N)
        for i in free:
            P = P @ kernel(i)
        per = len(free)
    else:
        P = sum(kernel(i) for i in free) / len(free)
        per = 1
    lam = np.sort(np.abs(np.linalg.eigvals(P)))[::-1]
    l2 = lam[1] if N > 1 else 0.
    if l2 <= 1e-12:
        return per
    if l2 >= 1 - 1e-9:
        return cap + 1
    return int(math.ceil(math.log(eps) / math.log(l2))) * per


# ------------------------------------------------------------------ canonical digests
def canon(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("oarr", x.shape, tuple(canon(v) for v in x.ravel()))
        return ("arr", str(x.dtype), x.shape, hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest())
    if isinstance(x, (np.floating, float)):
        return ("f", float(x).hex())
    if isinstance(x, (np.integer, int)):
        return ("i", int(x))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v) for v in x)
    if isinstance(x, dict):
        return tuple((k, canon(x[k])) for k in sorted(x))
    return repr(x)


def digest(x):
    return hashlib.sha256(repr(canon(x)).encode()).hexdigest()[:20]


def rng_state(rng):
    st = rng.get_state()
    return (st[0], digest(np.asarray(st[1])), st[2], st[3], float(st[4]).hex())


def check_sample(sample, size, n, kind, what="sample"):
    a = np.asarray(sample)
    require(isinstance(sample, np.ndarray), "sample-not-array", f"{what} is {type(sample)}")
    require(a.shape == (size, n), "wrong-sample-shape", f"{what}: asked for {size} draws of {n} spins, got {a.shape}")
    require(np.issubdtype(a.dtype, np.integer), "sample-not-integer", f"{what}: dtype {a.dtype}")
    bad = sorted(set(np.unique(a).tolist()) - set(STATES[kind]))
    require(not bad, "state-out-of-space", f"{what}: values {bad} outside {STATES[kind]}")


# ------------------------------------------------------------------ energies handed to the package
_jit_cache = {}


def calc_e_for(kind):
    """The package's own jitted energy function for `kind` (compiled once per process)."""
    if kind not in _jit_cache:
        from coniii import utils
        _jit_cache[kind] = {"ising": lambda: utils.define_ising_helper_functions()[0],
                            "triplet": lambda: utils.define_triplet_helper_functions()[0],
                            "potts": lambda: utils.define_potts_helper_functions(3)[0]}[kind]()
    return _jit_cache[kind]


def py_calc_e(kind):
    """Plain numpy energy with the same calling convention: f(states 2d, params) -> 1d array."""
    fn = ENERGY[kind]

    def calc_e(s, theta):
        return np.array([fn([int(x) for x in row], theta) for row in np.asarray(s)], dtype=float)
    return calc_e
