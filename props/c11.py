"""C11: equation files are complete and correct, or not there, whatever interrupts their writing.

Histories of generations (pairwise, third-order, Potts; both bases; high precision), loads through the models and restarts run
on a simulated disk.  In a generation, one I/O call is hit by a disk error, a full disk, a short write, an interrupt, the
death of the process or of the machine.  After every operation each final name is either absent or holds a file that imports
and agrees with brute-force enumeration, and a file that was complete stays so."""
import contextlib
import importlib
import io
import itertools
import math
import os
import re
import runpy
import shutil
import sys
import tempfile
import warnings

import numpy as np

from dst.core import InjectedFault, Sim, SimCrash, Violation
from dst import disk as dsk
from dst.disk import SimDisk
from dst.threads import Callers
from dst.worker_info import tree
from . import eqn, kit
from .common import digest, require, rngof
from .c08 import check_observables

N_RUNS = {"quick": 700, "thorough": 8000}
LICENSES = ("License of the scratch directory\n\nas is\n", "one line, no end", "ends in a line\nwithout an end", "", "\n", "\n\n\n",
            "with\r\nother line\r\nends\r\n", "# commented\n#\n\tdef p(params):\n    return None\n", '"""quoted\n\\\n')
KINDS = ("crash", "crash", "power", "power", "enospc", "eio", "short", "interrupt")
_points = {}


POTTS = ((3, 2), (3, 3), (3, 4), (4, 2), (4, 3))
POTTS_LARGE = ((3, 5), (3, 7), (3, 10), (3, 11), (3, 13), (4, 4), (4, 5), (5, 2), (5, 3), (6, 2))


def spec(r, big=False):
    """big: the larger systems."""
    what = r.choice(("pair", "pair", "trip", "potts"))
    if what == "potts":
        n, k = r.choice(POTTS_LARGE if big else POTTS)
        return {"what": what, "n": n, "k": k, "sym": 0, "hp": False}
    n = r.choice((6, 7) if big else (2, 3, 4, 5)) if what == "pair" else r.choice((5, 6) if big else (3, 4))
    return {"what": what, "n": n, "sym": r.choice((0, 1, 1)), "hp": r.random() < (.05 if big else .2)}


def gen(seed, tier, i):
    r = rngof("C11", seed, i)
    pool = [spec(r, r.random() < (.25 if tier == "thorough" else .08)) for _ in range(r.choice((1, 2)))]
    ops = []
    for _ in range(r.choice((2, 3, 4, 5))):
        x = r.random()
        if x < .7:
            op = {"op": "gen", "spec": r.choice(pool)}
            if r.random() < .75:
                op["fault"] = [r.choice(KINDS), round(r.choice((0., 1., r.random(), r.random(), r.random())), 4)]
            if r.random() < .2:
                op["cli"] = True
            if r.random() < .4:
                op["print"] = r.choice(({"threshold": 4, "edgeitems": 1}, {"linewidth": 20}, {"precision": 1, "suppress": True},
                                        {"sign": "+"}, {"legacy": "1.13"}))
            ops.append(op)
        elif x < .8:
            ops.append({"op": "restart"})
        elif x < .9:
            ops.append(together(r, pool))
        else:
            ops.append({"op": "license", "on": r.choice((None, None) + LICENSES)})
    if i % 16 == 7:
        ops.append({"op": "shipped", "frac": round(r.random(), 4)})
    return {"ops": ops, "license": r.choice((None, None) + LICENSES), "theta_seed": r.randrange(2 ** 31), "cpu": 2}


def together(r, pool):
    """Several programs, or several threads of one, generate at the same time."""
    op = {"op": "together", "specs": [r.choice(pool) for _ in range(r.choice((2, 2, 3)))], "threads": r.random() < .5}
    if r.random() < .4:
        op["fault"] = [r.choice(KINDS), round(r.random(), 4)]
    return op


def fname(sp):
    if sp["what"] == "potts":
        return f"ising_eqn_{sp['n']}_potts.py" if sp["k"] == 3 else f"ising_eqn_{sp['n']}_k{sp['k']}_potts.py"
    return f"ising_eqn_{sp['n']}{'_sym' if sp['sym'] else ''}{'_triplet' if sp['what'] == 'trip' else ''}{'_hp' if sp['hp'] else ''}.py"


def shipped_spec(name):
    """What a file that comes with the package must describe."""
    x = re.fullmatch(r"ising_eqn_(\d+)(_sym)?(_triplet)?(_hp)?\.py", name)
    if x:
        return {"what": "trip" if x[3] else "pair", "n": int(x[1]), "sym": int(bool(x[2])), "hp": bool(x[4])}
    x = re.fullmatch(r"ising_eqn_(\d+)_potts\.py", name)
    return {"what": "potts", "n": int(x[1]), "k": 3, "sym": 0, "hp": False} if x else None


def command(module, *args):
    """The command line of a module, in this process."""
    argv = sys.argv
    sys.argv = [module] + [str(a) for a in args]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_module("coniii." + module, run_name="__main__", alter_sys=False)
    finally:
        sys.argv = argv


def generate_by_command(sp, d):
    with contextlib.redirect_stdout(io.StringIO()):
        if sp["what"] == "potts":
            os.makedirs(os.path.join(d, "ising_eqn"), exist_ok=True)
            command("enumerate_potts", sp["n"], sp["k"], os.path.join("ising_eqn", fname(sp)))
        else:
            args = [sp["n"], sp["sym"], 2 if sp["what"] == "pair" else 3, "-hp=true" if sp["hp"] else "-hp=false"]
            if not sp["hp"]:
                args = args[:3]
            if sp["what"] == "pair":
                del args[2]
                if not sp["sym"] and not sp["hp"]:
                    args = args[:1]
            command("enumerate", *args)


def generate(sp, d, cli=False):
    if cli:
        return generate_by_command(sp, d)
    from coniii import enumerate as en, enumerate_potts as ep
    with contextlib.redirect_stdout(io.StringIO()) if Sim.current is None or Sim.current.scheduler is None else contextlib.nullcontext():
        if sp["what"] == "potts":
            os.makedirs(os.path.join(d, "ising_eqn"), exist_ok=True)
            ep.SpecificFieldGenericCouplings(sp["n"], sp["k"]).write(os.path.join(d, "ising_eqn", fname(sp)))
        else:
            (en.pairwise if sp["what"] == "pair" else en.triplet)(sp["n"], sp["sym"], high_prec=sp["hp"])


def brute(sp, th):
    """(observables, probabilities in the files' documented order)."""
    n = sp["n"]
    pairs = list(itertools.combinations(range(n), 2))
    trips = list(itertools.combinations(range(n), 3)) if sp["what"] == "trip" else []
    if sp["what"] == "potts":
        k = sp["k"]
        states = list(itertools.product(range(k), repeat=n))
        feats = np.array([[float(s[i] == a) for a in range(k) for i in range(n)] + [float(s[i] == s[j]) for i, j in pairs]
                          for s in states])
    else:
        states = list(itertools.product((-1, 1) if sp["sym"] else (0, 1), repeat=n))
        feats = np.array([[s[i] for i in range(n)] + [s[i] * s[j] for i, j in pairs] + [s[i] * s[j] * s[m] for i, j, m in trips]
                          for s in states], dtype=float)
    e = feats @ th
    w = np.exp(e - e.max())
    p = w / math.fsum(w)
    return p @ feats, p


def size_of(sp):
    n = sp["n"]
    return (n * sp["k"] if sp["what"] == "potts" else n) + math.comb(n, 2) + (math.comb(n, 3) if sp["what"] == "trip" else 0)


class State:
    def __init__(self, sim, scn, d):
        self.sim, self.scn, self.d = sim, scn, d
        self.dir = os.path.join(d, "ising_eqn")
        self.good = {}              # content -> spec it was verified for
        self.present = {}           # final name -> was complete
        self.outs = []

    def verify(self, name, sp, what):
        """The file under its final name imports and equals brute force."""
        path = os.path.join(self.dir, name)
        with open(path, "rb") as f:
            data = f.read()
        if (name, data) not in self.good:
            self.use(name, data, sp, what)

    def judge(self, name, data, sp, what):
        """What a reader found under the final name at some moment."""
        if (name, data) in self.good:
            return
        import coniii.ising_eqn as pkg
        keep = list(pkg.__path__)
        with tempfile.TemporaryDirectory(dir=self.d) as d:
            with open(os.path.join(d, name), "wb") as f:
                f.write(data)
            pkg.__path__[:] = [d]
            try:
                self.use(name, data, sp, what)
            finally:
                pkg.__path__[:] = keep

    def use(self, name, data, sp, what):
        key = (name, data)
        eqn.purge()
        try:
            mod = importlib.import_module("coniii.ising_eqn." + name[:-3])
        except Exception as e:
            raise Violation("partial-file", f"{what}: {name} ({len(data)} bytes) is there and does not import: {e!r}")
        q = np.random.RandomState(self.scn["theta_seed"])
        for scale in (0., .7, 4., 300.):
            th = q.normal(size=size_of(sp)) * scale
            ow, pw = brute(sp, th)
            try:
                arg = th
                if sp["hp"]:
                    import mpmath
                    arg = np.array([mpmath.mpf(float(x)) for x in th], dtype=object)
                with np.errstate(all="ignore"):
                    o = np.array([float(x) for x in mod.calc_observables(arg)])
                    p = np.array([float(x) for x in mod.p(arg)])
            except Exception as e:
                raise Violation("partial-file", f"{what}: {name} ({len(data)} bytes) fails when used: {e!r}")
            require(o.shape == ow.shape and np.allclose(o, ow, atol=1e-8), "wrong-observables", lambda: f"{what}: {name} gives "
                    f"{o.tolist()} for parameters {th.tolist()}, enumeration {ow.tolist()}")
            require(p.shape == pw.shape and np.allclose(p, pw, atol=1e-9), "wrong-probabilities",
                    lambda: f"{what}: {name} for parameters {th.tolist()}")
        self.good[key] = True
        self.sim.probe("file_verified")

    def check(self, specs, what):
        for name, sp in specs.items():
            there = os.path.exists(os.path.join(self.dir, name))
            if there:
                self.verify(name, sp, what)
            elif self.present.get(name):
                raise Violation("complete-file-lost", f"{what}: {name} was complete before and is gone")
            self.present[name] = there

    def model(self, sp, what):
        """What a program started now gets from the models."""
        kind = {"pair": "model_ising", "trip": "model_triplet", "potts": "model_potts"}[sp["what"]]
        if sp["hp"] or not sp["sym"] and sp["what"] != "potts" or sp.get("k", 3) != 3:
            return
        eqn.purge()
        q = np.random.RandomState(self.scn["theta_seed"] + 1)
        th = q.normal(size=size_of(sp)) * .6
        cfg = {"kind": kind, "n": sp["n"], "theta": th.tolist()}
        if sp["n"] == 2:
            return
        m = kit.make_model(cfg, th, np.random.RandomState(0))
        used = check_observables(m, cfg, [float(x) for x in th], what)
        there = os.path.exists(os.path.join(self.dir, fname(sp)))
        require(bool(used) == there, "file-not-used", f"{what}: {fname(sp)} present: {there}, used by the model: {used}")
        self.sim.probe("model_with_file" if used else "model_without_file")


def writers(st, disk, op, what):
    """The generations of op at the same time; returns (died, error) of each."""
    sim, seen, names = st.sim, {}, sorted({fname(sp) for sp in op["specs"]})

    def look():
        """What a reader would find now."""
        for name in names:
            try:
                with dsk._real["io.open"](os.path.join(st.dir, name), "rb") as f:
                    data = f.read()
            except FileNotFoundError:
                require(not st.present.get(name), "complete-file-lost", lambda: f"{what}: {name} was complete before and is gone "
                        "while others write")
                continue
            seen[name, data] = op["specs"][[fname(sp) for sp in op["specs"]].index(name)]

    def one(sp):
        def f():
            try:
                generate(sp, st.d)
            except SimCrash:
                return True, None
            except InjectedFault as e:
                return False, e
            return False, None
        return f
    cs = Callers(sim, tree(), lines=op["threads"], on_switch=look, max_switches=400)
    if not op["threads"]:
        cs.pids = [sim.pid + 1 + k for k in range(len(op["specs"]))]
    with contextlib.redirect_stdout(io.StringIO()), disk.mounted():
        res = cs.run([one(sp) for sp in op["specs"]])
    sim.probe("writers_together_" + ("threads" if op["threads"] else "processes"))
    for (name, data), sp in seen.items():
        st.judge(name, data, sp, what + ", read while others write")
    return res


def points(sp, lic):
    """How many I/O calls an undisturbed generation makes (counted once per process, outside any simulation)."""
    key = (fname(sp), lic)
    if key not in _points:
        cur, Sim.current = Sim.current, None
        d = tempfile.mkdtemp(prefix="pts", dir=eqn.scratch_root())
        cwd = os.getcwd()
        try:
            os.chdir(d)
            write_license(d, lic)
            disk = SimDisk(Sim(0), d)
            with disk.mounted():
                generate(sp, d)
            _points[key] = disk.count
        finally:
            os.chdir(cwd)
            shutil.rmtree(d)
            Sim.current = cur
    return _points[key]


def write_license(d, text):
    """The license file of the working directory, whose text the writers copy as comments; None: there is none."""
    path = os.path.join(d, "LICENSE.txt")
    if text is None:
        if os.path.exists(path):
            os.remove(path)
        return
    with open(path, "w", newline="") as f:
        f.write(text)


def run(scn, sim):
    import coniii.ising_eqn as pkg
    d = tempfile.mkdtemp(prefix="disk", dir=eqn.scratch_root())
    cwd, path0, po = os.getcwd(), list(pkg.__path__), np.get_printoptions()
    st = State(sim, scn, d)
    specs, n_fault = {}, 0
    lic = scn["license"]
    try:
        os.chdir(d)
        pkg.__path__[:] = [st.dir]
        write_license(d, lic)
        disk = SimDisk(sim, d)
        for oi, op in enumerate(scn["ops"]):
            what = f"operation {oi} {op}"
            if op["op"] == "license":
                lic = op["on"]
                write_license(d, lic)
                continue
            if op["op"] == "shipped":
                names = sorted(x for x in os.listdir(path0[0]) if shipped_spec(x))
                name = names[int(op["frac"] * len(names))]
                pkg.__path__[:], st.dir, keep = [path0[0]], path0[0], st.dir
                try:
                    st.verify(name, shipped_spec(name), what)
                finally:
                    pkg.__path__[:], st.dir = [keep], keep
                sim.probe("shipped_file_verified")
                continue
            if op["op"] == "restart":
                disk.restart()
                for sp in specs.values():
                    st.model(sp, what)
                st.check(specs, what)
                continue
            if op["op"] == "together":
                disk.count, disk.fired, disk.plan = 0, None, None
                if "fault" in op:
                    N = sum(points(sp, lic) for sp in op["specs"])
                    disk.plan = [1 + int(op["fault"][1] * (N - 1)), op["fault"][0]]
                if sim.decide("disk:writeback", 2):
                    disk.sync()
                safe = {os.path.basename(p) for p in disk.durable}
                res = writers(st, disk, op, what)
                fired = disk.fired
                n_fault += fired is not None
                for sp in op["specs"]:
                    specs[fname(sp)] = sp
                if disk.dead:
                    if fired[0] == "power":
                        for k in st.present:
                            st.present[k] = st.present[k] and k in safe
                    disk.restart()
                disk.plan = None
                st.check(specs, what + f" ({fired})")
                dead = any(died for died, _ in res)
                for sp, (died, failed) in zip(op["specs"], res):
                    if not dead and failed is None:
                        require(st.present[fname(sp)], "success-without-file", f"{what}: returned normally ({fired}), "
                                f"{fname(sp)} is not there")
                st.outs.append([[fname(sp), died, failed is not None] for sp, (died, failed) in zip(op["specs"], res)])
                continue
            sp = op["spec"]
            name = fname(sp)
            disk.count, disk.fired, disk.plan = 0, None, None
            if "fault" in op:
                N = points(sp, lic)
                disk.plan = [1 + int(round(op["fault"][1] * (N - 1))), op["fault"][0]]
            np.set_printoptions(**op.get("print", {}))
            died, failed = False, None
            if sim.decide("disk:writeback", 2):
                disk.sync()
            safe = {os.path.basename(p) for p in disk.durable}
            try:
                with disk.mounted():
                    generate(sp, d, op.get("cli"))
            except SimCrash:
                died = True
            except InjectedFault as e:
                failed = e
            finally:
                np.set_printoptions(**po)
            n_fault += disk.fired is not None
            fired = disk.fired
            specs[name] = sp
            if died:
                if fired[0] == "power":        # names the file system never wrote back may be gone, but nothing may be partial
                    for k in st.present:
                        st.present[k] = st.present[k] and k in safe
                disk.restart()
            disk.plan = None
            st.check(specs, what + f" ({fired})")
            if not died and failed is None:
                require(st.present[name], "success-without-file", f"{what}: returned normally ({fired}), {name} is not there")
                sim.probe("generated")
            st.model(sp, what)
            st.outs.append([name, died, failed is not None, st.present[name]])
        # a healthy generation always works afterwards
        for name, sp in list(specs.items()):
            disk.plan, disk.fired = None, None
            with disk.mounted():
                generate(sp, d)
            st.check({name: sp}, f"healthy generation of {name} at the end")
            require(st.present[name], "success-without-file", f"{name} at the end")
    finally:
        os.chdir(cwd)
        pkg.__path__[:] = path0
        np.set_printoptions(**po)
        eqn.purge()
        shutil.rmtree(d)
    return {"digest": digest(st.outs), "nontrivial": n_fault > 0, "key": repr(scn["ops"])}
