"""Simulation core: one integer seed -> one exactly repeatable execution.

A run is a pure function of (scenario, decisions).

* `scenario` is a JSON dictionary: the workload (operations and their arguments).
* every environment choice made while the workload runs (how long a task takes, which
  caller thread runs next, whether a fault fires at this seam, how many bytes of a write
  reach the disk, ...) is a *decision*: `sim.decide(kind, n)` returns an int in [0, n).
  Option 0 is always the benign one (no fault, run in order, no delay).

In search mode the decisions come from a PRNG seeded by the run's seed.  They are recorded
as a list; in replay mode they are read back from that list, and everything beyond its end
is 0.  Minimisation zeroes/truncates decisions and shrinks the scenario while the same
violation class persists.
"""
import hashlib
import json
import random


class Violation(Exception):
    """The property is broken.  `cls` identifies the class of the failure (for shrinking and
    for known findings), `detail` is the human-readable account."""

    def __init__(self, cls, detail=""):
        super().__init__(f"{cls}: {detail}")
        self.cls = cls
        self.detail = detail


class HarnessError(Exception):
    """The harness itself cannot go on (never reported as a violation)."""


class InjectedFault(Exception):
    """Marker mixin for exceptions raised by the simulator."""


class InjectedMemoryError(InjectedFault, MemoryError):
    pass


class InjectedOSError(InjectedFault, OSError):
    pass


class InjectedError(InjectedFault, RuntimeError):
    pass


class InjectedInterrupt(InjectedFault, KeyboardInterrupt):
    pass


class SimCrash(BaseException):
    """The simulated process dies here; no handler of the code under test may survive it."""


class Sim:
    current = None

    def __init__(self, seed, decisions=None, rates=None, max_decisions=200000):
        self.seed = seed
        self.prng = random.Random(f"decide:{seed}")
        self.entropy = random.Random(f"entropy:{seed}")
        self.replay = None if decisions is None else list(decisions)
        self.recorded = []           # [kind, n, value]
        self.rates = dict(rates or {})
        self.max_decisions = max_decisions
        self.now = 0.0               # simulated seconds
        self.clock_base = 1.6e9
        self.seq = 0
        self.log = []                # event log (digest proves determinism)
        self.log_on = True
        self.faults = {}             # kind -> times fired
        self.probes = {}             # rare condition -> times hit
        self.counters = {}
        self.cpu_count = 4
        self.pools = []
        self.pid = 1000
        self.next_pid = 1001
        self.armed = False           # faults only fire while armed
        self.scheduler = None        # caller-thread baton scheduler, if any
        self.in_worker = 0           # > 0 while a pool task runs (no switch between callers there)
        self.fault_budget = 10 ** 9
        self.calls = 0
        self.shared_memory_pool = False   # cheap pool without pickling, for runs that only test the sampling law
        self.quiet = False           # take the benign option everywhere (undisturbed reference execution)

    # ---------------------------------------------------------------- decisions
    def decide(self, kind, n, weights=None):
        """Pick an option in [0, n). 0 is the benign default."""
        if n <= 1 or self.quiet:
            return 0
        i = len(self.recorded)
        if i >= self.max_decisions:
            return 0
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            if not 0 <= v < n:
                v = 0
        elif weights is not None:
            v = self.prng.choices(range(n), weights)[0]
        else:
            v = self.prng.randrange(n)
        self.recorded.append((kind, n, v))
        return v

    def coin(self, kind, p):
        """Biased coin, recorded as 0/1."""
        if p <= 0:
            return False
        return self.decide(kind, 2, (1 - p, p)) == 1

    def fault(self, kind):
        """Should fault `kind` fire at this point?"""
        if not self.armed or self.fault_budget <= 0:
            return False
        p = self.rates.get(kind, 0.)
        if p <= 0:
            return False
        if self.coin("fault:" + kind, p):
            self.fired(kind)
            return True
        return False

    def fired(self, kind):
        self.fault_budget -= 1
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.event("FAULT", kind)

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def count(self, name, k=1):
        self.counters[name] = self.counters.get(name, 0) + k

    # ---------------------------------------------------------------- log & clock
    def event(self, *what):
        self.seq += 1
        if self.log_on:
            self.log.append((round(self.now, 9),) + what)

    def advance(self, dt):
        self.now += dt

    def digest(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode())
        for d in self.recorded:
            h.update(repr(d).encode())
        return h.hexdigest()[:16]

    def schedule_signature(self):
        """Identifies the interleaving/fault pattern: the sequence of non-benign decisions."""
        return hashlib.sha256(repr([(k, v) for k, _, v in self.recorded]).encode()).hexdigest()[:16]

    def decisions(self):
        return [v for _, _, v in self.recorded]


def jd(x):
    return json.dumps(x, sort_keys=True)


def subrng(*parts):
    return random.Random(":".join(str(p) for p in parts))
