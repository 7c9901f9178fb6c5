"""C14: the lattice automaton visits configurations with the ferromagnet's equilibrium law; coarse graining takes block majorities.

Small periodic lattices are enumerated.  Several lattices run interleaved, on their own or a common generator, while other code uses
the process-wide generators in between; single lattices, pairs of lattices and successive states are tested against the enumeration."""
import itertools
import math

import numpy as np
from scipy.stats import binom

from dst.core import HarnessError
from .common import chi2_pvalue, digest, require, rngof

N_RUNS = {"quick": 640, "thorough": 9000}
PMIN = 1e-9
DIMS = ((2, 2), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3))


def gen(seed, tier, i):
    r = rngof("C14", seed, i)
    mode = ("law", "law", "pair", "state", "coarse", "law", "next", "fresh")[i % 8]
    dim = r.choice(DIMS)
    if mode in ("pair", "next"):
        dim = (2, 2)
    if mode in ("state", "coarse"):
        dim = (r.randrange(2, 10), r.randrange(2, 10))
    n = dim[0] * dim[1]
    J = round(r.choice((0., r.uniform(.02, .2), r.uniform(.2, .4), r.uniform(.2, .5), r.uniform(-.4, -.1))), 4)
    hk = r.choice(("zero", "int", "float", "negative", "array", "array", "array32", "strong", "list", "fortran"))
    h = {"zero": 0, "int": r.choice((1, -1)), "float": round(r.uniform(.1, .7), 4), "negative": -round(r.uniform(.1, .7), 4),
         "strong": [[round(r.choice((-1, 1)) * r.uniform(.5, 8), 3) for _ in range(dim[1])] for _ in range(dim[0])]}.get(
             hk, [[round(r.uniform(-.8, .8), 4) for _ in range(dim[1])] for _ in range(dim[0])])
    return {"mode": mode, "dim": dim, "J": J, "h": h, "hkind": hk, "systematic": r.random() < .5, "rng_seed": r.randrange(2 ** 31),
            "N": {"law": 7000, "pair": 6000, "next": 6000, "fresh": 1500}.get(mode, 40), "same_rng": r.random() < .5,
            "factor": r.choice((1, 2, 2, 3, 4, 4, r.randrange(5, 11), r.randrange(11, 20))), "up": r.choice((.5, .5, .5, .1, .8, .97, 1., 0.)), "ambient": r.random() < .5, "odd_iters": r.choice((0, 0, 1, 3)),
            "shrink": {"N": 300}, "cpu": 2}


# ------------------------------------------------------------------ reference
def energy(s, dim, J, h):
    """-J over the bonds to the right and downward neighbour of every site (periodic), minus the local fields."""
    X, Y = dim
    e = 0.
    for a in range(X):
        for b in range(Y):
            v = s[a * Y + b]
            e -= J * v * (s[((a + 1) % X) * Y + b] + s[a * Y + (b + 1) % Y]) + h[a][b] * v
    return e


def law(dim, J, h):
    st = list(itertools.product((-1, 1), repeat=dim[0] * dim[1]))
    e = [energy(s, dim, J, h) for s in st]
    m = min(e)
    w = [math.exp(m - x) for x in e]
    z = math.fsum(w)
    return {s: x / z for s, x in zip(st, w)}


def relaxation(dim, J, h, sweeps, eps=3e-4):
    """Number of random single-site Metropolis updates (or of sweeps in random order) after which the slowest mode is below eps."""
    p = law(dim, J, h)
    st = list(p)
    ix = {s: k for k, s in enumerate(st)}
    n = len(st[0])
    flip = np.array([[ix[s[:k] + (-s[k],) + s[k + 1:]] for s in st] for k in range(n)])
    pv = np.array([p[s] for s in st])
    acc = np.minimum(1., pv[flip] / pv)
    N = len(st)

    def update(P, k):                            # rows: distribution over states
        stay = P * (1 - acc[k])
        stay[:, flip[k]] += P * acc[k]
        return stay
    I = np.eye(N)
    if sweeps:
        perms = list(itertools.permutations(range(n)))
        if len(perms) > 60:
            g = np.random.RandomState(1)
            perms = [g.permutation(n) for _ in range(60)]
        M = np.zeros((N, N))
        for q in perms:
            P = I
            for k in q:
                P = update(P, k)
            M += P / len(perms)
    else:
        M = sum(update(I, k) for k in range(n)) / n
    A = M - pv[None, :]                          # the equilibrium direction removed
    lam = np.abs(np.linalg.eigvals(A)).max()
    return p, (10 ** 9 if lam >= 1 - 1e-9 else int(math.ceil(math.log(eps) / math.log(max(lam, 1e-9)))))


# ------------------------------------------------------------------ compiled once per configuration
_compiled = {}
_real = {}


class Once:
    """A compiled inner function, called with its defaults filled in."""

    def __init__(self, disp, f):
        self.disp, self.defaults, self.n = disp, tuple(f.__defaults__ or ()), f.__code__.co_argcount

    def __call__(self, *a):
        return self.disp(*a, *self.defaults[len(self.defaults) - (self.n - len(a)):])


def compile_once():
    """The automaton compiles its update loop again in every call; reuse the compilation when code and captured values are the
    same (the compiled code is the package's own)."""
    from coniii.ising import automaton
    if "njit" not in _real:
        _real["njit"] = getattr(automaton, "njit", None)
    real = _real["njit"]
    if real is None:
        return

    def njit(*a, **k):
        if k or len(a) != 1 or not callable(a[0]) or not a[0].__defaults__:
            return real(*a, **k)
        f = a[0]
        try:
            cells = tuple(c.cell_contents for c in (f.__closure__ or ()))
        except ValueError:
            return real(f)
        key = (f.__code__.co_code, f.__code__.co_names, repr(f.__code__.co_consts),
               repr([(type(c).__name__, c if isinstance(c, (int, float, str)) else id(c)) for c in cells]))
        if key not in _compiled:
            _compiled[key] = (real(f), cells)       # keeps the captured values alive, so that ids stay unique
        return Once(_compiled[key][0], f)
    automaton.njit = njit


def compile_always():
    from coniii.ising import automaton
    automaton.njit = _real["njit"]


def field(scn):
    """The field as handed to the package, and as a matrix."""
    h, dim = scn["h"], scn["dim"]
    full = (np.zeros(dim) + np.array(h, dtype=float)).tolist()
    if isinstance(h, list):
        if scn["hkind"] == "array32":
            a = np.array(h, dtype=np.float32)
            return a, a.astype(float).tolist()
        if scn["hkind"] == "fortran":
            return np.asfortranarray(np.array(h)), full
        if scn["hkind"] == "list":
            return h, full
        return np.array(h), full
    return h, full


def check_lattice(L, dim, what):
    a = np.asarray(L)
    require(isinstance(L, np.ndarray) and a.shape == tuple(dim), "wrong-lattice-shape", f"{what}: {a.shape} instead of {tuple(dim)}")
    bad = sorted(set(np.unique(a).tolist()) - {-1, 1})
    require(not bad, "not-a-spin", f"{what}: lattice contains {bad}")


def run(scn, sim):
    from numba.core.errors import NumbaError
    compile_once()
    try:
        return simulate(scn, sim)
    except NumbaError:                           # an inner function that has to be compiled together with another one
        compile_always()
        sim.log_on = True
        return simulate(dict(scn, N=min(scn["N"], 60)), sim)


def simulate(scn, sim):
    from coniii.ising.automaton import Ising2D, coarse_grain
    dim, J, mode, N = tuple(scn["dim"]), scn["J"], scn["mode"], scn["N"]
    h, hm = field(scn)
    h0 = digest(h) if isinstance(h, np.ndarray) else repr(h)
    rng = np.random.RandomState(scn["rng_seed"])
    n = dim[0] * dim[1]
    mid = [tuple(dim), J, scn["hkind"], scn["systematic"], mode]

    def ambient():
        if scn["ambient"] and sim.decide("ambient", 3):
            np.random.rand(sim.decide("draws", 4))
            sim.probe("others_use_generators")

    def unchanged():
        require((digest(h) if isinstance(h, np.ndarray) else repr(h)) == h0, "field-mutated", str(mid))
    if mode == "coarse":
        return coarse(scn, sim, dim, rng, coarse_grain)
    if mode == "state":
        objs = [Ising2D(dim, J, h=h, rng=rng), Ising2D(dim[::-1], J, h=0, rng=rng)]
        seen = []
        for k in range(6):
            o = objs[sim.decide("lattice", 2)]
            o.iterate((1, n, n + 3)[sim.decide("iters", 3)], systematic=bool(sim.decide("order", 2)))
            ambient()
            check_lattice(objs[0].lattice, dim, f"{mid} call {k}")
            check_lattice(objs[1].lattice, dim[::-1], f"{mid} call {k}")
            seen.append(digest([o.lattice for o in objs]))
        unchanged()
        return {"digest": digest(seen), "key": ("state", dim, scn["hkind"])}
    p, it = relaxation(dim, J, hm, scn["systematic"])
    if it > (60 if scn["systematic"] else 900):  # (nearly) free spins swept in turn flip every time: no relaxation to speak of
        sim.probe("does_not_relax")
        return {"digest": "", "nontrivial": False}
    if scn["systematic"]:
        n_iters = max(it, 2) * n - (scn["odd_iters"] if n > 2 else 0)
    else:
        n_iters = max(n, int(math.isqrt(it * n)) + n)         # the random mode makes n_iters updates per n of n_iters
    sim.log_on = False
    if mode == "fresh":                          # every draw from a new lattice relaxed from its own random start
        x = []
        for k in range(N):
            o = Ising2D(dim, J, h=h, rng=rng)
            o.iterate(2 * n_iters, systematic=scn["systematic"])
            ambient()
            x.append(o.lattice.ravel().copy())
            sim.now += 1
        xs = [np.array(x)]
    else:
        rngs = [rng, rng if scn["same_rng"] else np.random.RandomState(scn["rng_seed"] + 1)]
        objs = [Ising2D(dim, J, h=h, rng=g) for g in rngs[:1 if mode in ("law", "next") else 2]]
        for o in objs:
            o.iterate(3 * n_iters, systematic=scn["systematic"])
        xs = [np.empty((N, n), int) for _ in objs]
        for k in range(N):
            order = (0,) if len(objs) == 1 else ((0, 1), (1, 0))[sim.decide("who", 2)] if k < 2000 else (0, 1)
            for w in order:
                objs[w].iterate(n_iters, systematic=scn["systematic"])
                xs[w][k] = objs[w].lattice.ravel()
            if k < 500:
                ambient()
    sim.log_on = True
    unchanged()
    for o in ([o] if mode == "fresh" else objs):
        check_lattice(o.lattice, dim, str(mid))
    sim.count("states", sum(len(x) for x in xs))
    for w, x in enumerate(xs):
        pv, stat, odd = chi2_pvalue(x, p)
        require(pv > PMIN, "wrong-distribution", lambda: f"{mid}: lattice {w}, {len(x)} states, {n_iters} iterations apart, do not "
                f"follow exp(-E)/Z: chi2={stat:.1f} p={pv:.2g}")
    joint = {"pair": lambda: np.hstack(xs), "next": lambda: np.hstack([xs[0][0:-1:2], xs[0][1::2]])}.get(mode)
    if joint is not None:
        j = joint()
        p2 = {a + b: pa * pb for a, pa in p.items() for b, pb in p.items()}
        pv, stat, odd = chi2_pvalue(j, p2)
        require(pv > PMIN, "not-independent", lambda: f"{mid}: {'two lattices' if mode == 'pair' else 'successive states'} are not "
                f"independent: chi2={stat:.1f} p={pv:.2g}")
        sim.probe("joint_law")
    return {"digest": digest(xs), "key": tuple(map(str, mid))}


def coarse(scn, sim, dim, rng, coarse_grain):
    f = scn["factor"]
    dim = (max(dim[0], f + dim[0] % 3), max(dim[1], f * (1 + dim[1] % 2)))
    out, up, total = [], {}, {}
    joint = {}
    L = None
    for k in range(scn["N"] * (30 if f < 5 and scn["up"] == .5 else 6)):
        if k % 60 == 0:
            L = ((rng.rand(*dim) < scn["up"]) * 2 - 1).astype((np.int8, np.int64, np.int16)[sim.decide("dtype", 3)])
            if sim.decide("order", 2):
                L = np.asfortranarray(L)
            L0 = L.copy()
            X, Y = dim[0] // f, dim[1] // f
            tot = np.array([[int(L[a * f:(a + 1) * f, b * f:(b + 1) * f].astype(int).sum()) for b in range(Y)] for a in range(X)])
        c = coarse_grain(L, f)
        require(np.array_equal(L, L0), "input-mutated", f"coarse_grain changed its input, {dim} by {f}")
        check_lattice(c, (X, Y), f"coarse_grain {dim} by {f}")
        bad = (tot != 0) & (np.sign(tot) != c)
        require(not bad.any(), "not-the-majority", lambda: f"coarse_grain by {f} of\n{L}\ngave\n{c}\nblock sums\n{tot}")
        ties = np.argwhere(tot == 0)
        for t in ties:
            total[0] = total.get(0, 0) + 1
            up[0] = up.get(0, 0) + int(c[tuple(t)] == 1)
        if len(ties) >= 2:
            q = (int(c[tuple(ties[0])]), int(c[tuple(ties[-1])]))
            joint[q] = joint.get(q, 0) + 1
        if k < 20:
            out.append(np.array(c))
    if total.get(0):
        m, u = total[0], up[0]
        pv = 2 * min(binom.cdf(u, m, .5), binom.sf(u - 1, m, .5))
        require(pv > PMIN, "ties-not-random", f"{u} of {m} exact ties went up, {dim} by {f}")
        sim.probe("ties")
        sim.count("ties", m)
    m = sum(joint.values())
    if m >= 200:
        x = sum((joint.get(q, 0) - m / 4) ** 2 / (m / 4) for q in ((1, 1), (1, -1), (-1, 1), (-1, -1)))
        from scipy.stats import chi2
        require(chi2.sf(x, 3) > PMIN, "ties-not-independent", f"{joint}, {dim} by {f}")
        sim.probe("pairs_of_ties")
    return {"digest": digest(out), "key": ("coarse", dim, f)}
