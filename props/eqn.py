"""Equation files for sizes the package does not ship, written by the package itself into this process's scratch."""
import contextlib
import importlib
import io
import os
import sys
import tempfile

_done = None


def scratch_root():
    return os.environ.get("DST_SCRATCH") or tempfile.gettempdir()


def ensure():
    """Generate triplet (n=3,4) and Potts (n=3,4) files once per process and put them on the package's path."""
    global _done
    if _done:
        return
    from coniii import enumerate as en, enumerate_potts as ep
    import coniii.ising_eqn as pkg
    from dst.core import Sim
    d = tempfile.mkdtemp(prefix="eqn", dir=scratch_root())
    cwd = os.getcwd()
    cur, Sim.current = Sim.current, None      # outside the simulation: the run must not depend on being first
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            for n in (3, 4):
                en.triplet(n, 1)
                ep.SpecificFieldGenericCouplings(n, 3).write(os.path.join(d, "ising_eqn", f"ising_eqn_{n}_potts.py"))
    finally:
        os.chdir(cwd)
        Sim.current = cur
    pkg.__path__.append(os.path.join(d, "ising_eqn"))
    importlib.invalidate_caches()
    _done = d


def purge(name=None):
    """Forget imported equation files (a restarted process has none)."""
    for k in list(sys.modules):
        if k.startswith("coniii.ising_eqn.") and (name is None or k.endswith("." + name)):
            del sys.modules[k]
            sub = k.rsplit(".", 1)[1]
            pkg = sys.modules["coniii.ising_eqn"]
            if hasattr(pkg, sub):
                delattr(pkg, sub)
    importlib.invalidate_caches()
