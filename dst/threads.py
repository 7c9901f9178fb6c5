"""Several callers of one process, as threads of which only one runs at a time.

Who runs next, and for how long, are decisions of the simulator.  A caller can be preempted at the boundaries of a worker pool,
at its own callbacks (`yield_point`), and before any line of the package's code (a trace function restricted to the package)."""
import os
import sys
import threading

from .core import HarnessError

QUANTA = (None, 1, 3, 10, 40, 200, 1000, 5000)


class Callers:
    def __init__(self, sim, tree, lines=True, on_switch=None, max_switches=2500, quanta=QUANTA):
        self.sim, self.lines, self.on_switch = sim, lines, on_switch
        self.prefix = os.path.join(tree, "")
        self.max_switches, self.switches = max_switches, 0
        self.quanta = quanta
        self.budget = None              # lines left before the running caller is preempted
        self.running = None
        self.pids = None                # callers that are processes: their pids
        self.main = threading.Semaphore(0)
        self.callers = []

    # ------------------------------------------------------------------ run
    def run(self, fns):
        """Run the functions as concurrent callers; returns their results (or raises the first error in order)."""
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done, self.out, self.err = [False] * n, [None] * n, [None] * n
        ths = [threading.Thread(target=self._body, args=(k, f), daemon=True) for k, f in enumerate(fns)]
        for t in ths:
            t.start()
        sim = self.sim
        prev, sim.scheduler, pid = sim.scheduler, self, sim.pid
        last = 0
        try:
            while not all(self.done):
                alive = [k for k in range(n) if not self.done[k]]
                alive.sort(key=lambda k: (k != last, k))
                last = alive[sim.decide("caller", len(alive))]
                few = self.switches >= self.max_switches
                self.budget = None if few or len(alive) == 1 else self.quanta[sim.decide("quantum", len(self.quanta), [1] + [12 / (len(self.quanta) - 1)] * (len(self.quanta) - 1))]
                self.running = last
                if self.pids is not None:
                    sim.pid = self.pids[last]
                sim.event("caller", last, self.budget)
                self.sem[last].release()
                if not self.main.acquire(timeout=240):
                    raise HarnessError("caller threads deadlocked")
                self.switches += 1
                if self.on_switch is not None:
                    self.on_switch()
        finally:
            sim.scheduler, sim.pid = prev, pid
            self.running = None
        sim.count("caller_switches", self.switches)
        for e in self.err:
            if e is not None:
                raise e
        return self.out

    def _body(self, k, fn):
        self.sem[k].acquire()
        try:
            if self.lines:
                sys.settrace(self._trace)
            self.out[k] = fn()
        except BaseException as e:
            self.err[k] = e
        finally:
            sys.settrace(None)
            self.done[k] = True
            self.main.release()

    # ------------------------------------------------------------------ preemption
    def _park(self):
        k = self.running
        self.main.release()
        self.sem[k].acquire()

    def yield_point(self, name):
        """A natural switch point: callback, pool boundary."""
        if self.running is None or self.sim.in_worker or self.switches >= self.max_switches:
            return
        if self.sim.decide("switch", 3) == 1:
            self.sim.probe("switch_at_" + name.split(":")[0])
            self._park()

    def _trace(self, frame, event, arg):
        co = frame.f_code
        if not co.co_filename.startswith(self.prefix) or co.co_name == "<module>":
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == "line" and self.budget is not None and not self.sim.in_worker:
            self.budget -= 1
            if self.budget <= 0:
                self.sim.probe("switch_inside_package_code")
                self._park()
        return self._line
