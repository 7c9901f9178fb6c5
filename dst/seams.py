"""Seams: every source of nondeterminism coniii can reach, replaced by the simulator's.

Installed *before* coniii is imported.  All stand-ins consult `Sim.current`.

  process pools   multiprocess / multiprocessing (and concurrent.futures) pools -> SimPool:
                  tasks and results really are pickled with dill, workers have their own pid,
                  their own copies of the process-wide generators, and run in an order the
                  simulator chooses on the simulated clock
  cpu count       os.cpu_count, multiprocess.cpu_count -> Sim.cpu_count
  OS entropy      numpy's seed source, os.urandom, random.SystemRandom users -> Sim.entropy
  global RNGs     numpy.random global, random, numba's generator: seeded per run, and
                  saved/restored at every simulated process switch
  clock           time.time/time_ns/monotonic/perf_counter/strftime/localtime, datetime.now
  pid             os.getpid
"""
import builtins
import datetime as _datetime
import errno
import os
import random
import sys
import time
import warnings

import dill
import numpy as np

from .core import (HarnessError, InjectedError, InjectedInterrupt, InjectedMemoryError, InjectedOSError, Sim)

_real = {}
_installed = False


def sim():
    return Sim.current


# ------------------------------------------------------------------ process-wide generators
def _numba_state_get():
    try:
        from numba import _helperlib
        return _helperlib.rnd_get_state(_helperlib.rnd_get_np_state_ptr())
    except Exception:
        return None


def _numba_state_set(st):
    if st is None:
        return
    from numba import _helperlib
    _helperlib.rnd_set_state(_helperlib.rnd_get_np_state_ptr(), st)


def _numba_seed(seed):
    try:
        from numba import _helperlib
        _helperlib.rnd_seed(_helperlib.rnd_get_np_state_ptr(), seed)
    except Exception as e:           # pragma: no cover
        raise HarnessError(f"cannot seed numba generator: {e}")


def get_globals_state():
    return (np.random.get_state(), random.getstate(), _numba_state_get())


def set_globals_state(st):
    np.random.set_state(st[0])
    random.setstate(st[1])
    _numba_state_set(st[2])


def seed_globals(seed):
    r = random.Random(f"globals:{seed}")
    np.random.seed(r.randrange(2 ** 32))
    random.seed(r.randrange(2 ** 63))
    _numba_seed(r.randrange(2 ** 32))


# ------------------------------------------------------------------ pool
class RemoteTraceback(Exception):
    pass


class _Worker:
    def __init__(self, s):
        self.pid = s.next_pid
        s.next_pid += 1
        self.state = get_globals_state()     # fork: a copy of the parent's generators
        self.free_at = s.now
        self.ntasks = 0


class _Result:
    """AsyncResult-like."""

    def __init__(self, pool, job):
        self._pool, self._job = pool, job

    def get(self, timeout=None):
        self._pool._drain(self._job)
        return self._job.result()

    def wait(self, timeout=None):
        self._pool._drain(self._job)

    def ready(self):
        return self._job.done()

    def successful(self):
        return self._job.error is None


class _Job:
    """A set of chunks submitted together."""

    def __init__(self, chunks, single=False, callback=None, error_callback=None):
        self.n = len(chunks)
        self.pending = self.n
        self.values = [None] * self.n
        self.error = None
        self.order = []
        self.single = single
        self.callback, self.error_callback = callback, error_callback

    def done(self):
        return self.pending == 0

    def set(self, i, ok, val):
        self.pending -= 1
        self.order.append(i)
        if ok:
            self.values[i] = val
        elif self.error is None:
            self.error = val
        if self.pending == 0:
            if self.error is None and self.callback:
                self.callback(self.result())
            elif self.error is not None and self.error_callback:
                self.error_callback(self.error)

    def result(self):
        if self.error is not None:
            raise self.error
        if self.single:
            return self.values[0]
        return [x for c in self.values for x in c]


class SimPool:
    """multiprocess.Pool, simulated.  `isolate` pickles tasks and results (processes)."""
    isolate = True

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        s = sim()
        if s is None:
            raise HarnessError("pool created outside a simulated run")
        if processes is None:
            processes = s.cpu_count
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        s.event("pool.open", processes)
        s.count("pools")
        if s.fault("fork_eagain"):
            raise InjectedOSError(errno.EAGAIN, "Resource temporarily unavailable")
        if s.fault("fork_enomem"):
            raise InjectedOSError(errno.ENOMEM, "Cannot allocate memory")
        if s.scheduler is not None:
            s.scheduler.yield_point("pool.open")
        if s.shared_memory_pool:
            self.isolate = False
        self._processes = processes
        self._workers = [_Worker(s) for _ in range(processes)]
        self._state = "RUN"
        self._queue = []           # (job, chunk index, payload)
        self._running = []         # (finish time, tie, worker, job, index, ok, value)
        self._tie = 0
        self._id = len(s.pools)
        s.pools.append(self)
        self.log = []              # per executed chunk: dict(worker, index, value)
        if initializer is not None:
            for w in self._workers:
                self._in_worker(w, lambda: initializer(*initargs))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise HarnessError(f"simulated pool has no {name}")

    # -- context manager & lifecycle
    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def close(self):
        if self._state == "RUN":
            self._state = "CLOSE"
        s = sim()
        if s is not None:
            s.event("pool.close", self._id)

    def terminate(self):
        self._state = "TERMINATE"
        self._queue = []
        self._running = []
        s = sim()
        if s is not None:
            s.event("pool.terminate", self._id)

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")
        while self._queue or self._running:
            self._step()

    def restart(self, force=False):
        self._state = "RUN"

    clear = join

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    # -- submission
    def _chunks(self, it, chunksize):
        it = list(it)
        if chunksize is None:
            chunksize, extra = divmod(len(it), len(self._workers) * 4)
            if extra:
                chunksize += 1
        if not it:
            return []
        return [tuple(it[i:i + chunksize]) for i in range(0, len(it), max(1, chunksize))]

    def _submit(self, func, chunks, star=False, single=False, kwds=None, callback=None, error_callback=None):
        self._check()
        s = sim()
        job = _Job(chunks, single, callback, error_callback)
        for i, c in enumerate(chunks):
            payload = (func, c, star, single, kwds or {})
            if self.isolate:
                try:
                    payload = dill.dumps(payload)
                except Exception as e:
                    s.event("pool.unpicklable", i)
                    job.set(i, False, e)
                    continue
            self._queue.append((job, i, payload))
        s.count("tasks", len(chunks))
        return job

    # -- execution
    def _in_worker(self, w, fn):
        s = sim()
        s.in_worker += 1
        try:
            return self._as_worker(s, w, fn)
        finally:
            s.in_worker -= 1

    def _as_worker(self, s, w, fn):
        if not self.isolate:
            return fn()
        parent = get_globals_state()
        ppid, s.pid = s.pid, w.pid
        ent = s.entropy
        s.entropy = random.Random(f"entropy:{s.seed}:{w.pid}:{w.ntasks}")
        set_globals_state(w.state)
        try:
            return fn()
        finally:
            w.state = get_globals_state()
            set_globals_state(parent)
            s.pid = ppid
            s.entropy = ent

    def _run_chunk(self, w, payload):
        s = sim()
        if s.fault("worker_oserror"):
            return False, InjectedOSError(errno.EIO, "injected I/O error in worker")
        if s.fault("worker_memory"):
            return False, InjectedMemoryError("injected: cannot allocate in worker")

        def body():
            func, c, star, single, kwds = dill.loads(payload) if self.isolate else payload
            if single:
                return func(*c, **kwds)
            return [func(*x) if star else func(x) for x in c]
        try:
            val = self._in_worker(w, body)
            if s.fault("worker_late_error"):
                return False, InjectedError("injected: worker failed after computing its result")
            if self.isolate:
                val = dill.loads(dill.dumps(val))
            return True, val
        except HarnessError:
            raise
        except Exception as e:
            return False, e

    def _dispatch(self):
        """Hand queued tasks to idle workers (simulator picks which idle worker)."""
        s = sim()
        while self._queue:
            idle = [w for w in self._workers if not any(r[2] is w for r in self._running)]
            if not idle:
                return
            idle.sort(key=lambda w: w.ntasks)
            w = idle[s.decide("worker", len(idle))]
            job, i, payload = self._queue.pop(0)
            w.ntasks += 1
            # duration: a slow (stalled) worker is one with a long duration
            d = (1.0, 0.25, 0.5, 3.0, 60.0)[s.decide("duration", 5)]
            if d == 60.0:
                s.probe("stalled_worker")
            s.event("task.start", self._id, i, w.pid)
            ok, val = self._run_chunk(w, payload)
            self.log.append({"worker": w.pid, "index": i, "ok": ok, "value": val})
            self._tie += 1
            self._running.append((s.now + d, self._tie, w, job, i, ok, val))

    def _step(self):
        s = sim()
        self._dispatch()
        if not self._running:
            return False
        if s.scheduler is not None:
            s.scheduler.yield_point("pool.wait")
        if s.fault("interrupt"):
            raise InjectedInterrupt("injected: KeyboardInterrupt while waiting for workers")
        if not self._running:       # terminated while we were parked
            return False
        self._running.sort(key=lambda r: (r[0], r[1]))
        t, _, w, job, i, ok, val = self._running.pop(0)
        s.now = max(s.now, t)
        s.event("task.done", self._id, i, ok)
        if job.order and i < max(job.order):
            s.probe("out_of_order_completion")
        job.set(i, ok, val)
        return True

    def _drain(self, job):
        while not job.done():
            if not self._step() and not job.done():
                raise HarnessError("simulated pool deadlocked")

    # -- public API
    def map(self, func, iterable, chunksize=None):
        self._check()
        job = self._submit(func, self._chunks(iterable, chunksize))
        self._drain(job)
        return job.result()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Result(self, self._submit(func, self._chunks(iterable, chunksize), callback=callback,
                                          error_callback=error_callback))

    def starmap(self, func, iterable, chunksize=None):
        job = self._submit(func, self._chunks(iterable, chunksize), star=True)
        self._drain(job)
        return job.result()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return _Result(self, self._submit(func, self._chunks(iterable, chunksize), star=True, callback=callback,
                                          error_callback=error_callback))

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        return _Result(self, self._submit(func, [tuple(args)], single=True, kwds=kwds, callback=callback,
                                          error_callback=error_callback))

    def imap(self, func, iterable, chunksize=1):
        job = self._submit(func, self._chunks(iterable, chunksize))

        def gen():
            for i in range(job.n):
                while job.values[i] is None and i not in job.order:
                    if not self._step():
                        raise HarnessError("simulated pool deadlocked")
                if job.values[i] is None and job.error is not None:
                    raise job.error
                yield from job.values[i]
        return gen()

    def imap_unordered(self, func, iterable, chunksize=1):
        job = self._submit(func, self._chunks(iterable, chunksize))

        def gen():
            given = 0
            while given < job.n:
                while len(job.order) <= given:
                    if not self._step():
                        raise HarnessError("simulated pool deadlocked")
                i = job.order[given]
                given += 1
                if job.values[i] is None and job.error is not None:
                    raise job.error
                yield from job.values[i]
        return gen()


class SimThreadPool(SimPool):
    isolate = False


class _Future:
    def __init__(self, res):
        self._r = res

    def result(self, timeout=None):
        return self._r.get()

    def done(self):
        return self._r.ready()

    def exception(self, timeout=None):
        try:
            self._r.get()
        except Exception as e:
            return e


class SimProcessPoolExecutor:
    pool_cls = SimPool

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self._pool = self.pool_cls(max_workers, initializer, initargs)

    def submit(self, fn, *a, **k):
        return _Future(self._pool.apply_async(fn, a, k))

    def map(self, fn, *its, timeout=None, chunksize=1):
        res = self._pool.starmap_async(fn, list(zip(*its)), chunksize)
        return iter(res.get())

    def shutdown(self, wait=True, cancel_futures=False):
        self._pool.close()
        if wait:
            self._pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()


class SimThreadPoolExecutor(SimProcessPoolExecutor):
    pool_cls = SimThreadPool


def pool_factory(*a, **k):
    return SimPool(*a, **k)


# ------------------------------------------------------------------ clock
class SimDatetime(_datetime.datetime):
    @classmethod
    def now(cls, tz=None):
        s = sim()
        if s is None:
            return _real["datetime"].now(tz)
        return cls.fromtimestamp(s.clock_base + s.now, tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return cls.now()


def _clock(name, scale=1.0, as_int=False):
    real = getattr(time, name)

    def f():
        s = sim()
        if s is None:
            return real()
        t = (s.clock_base + s.now) * scale
        return int(t) if as_int else t
    f.__name__ = name
    return f


def install():
    """Replace the seams.  Idempotent.  Must run before coniii is imported."""
    global _installed
    if _installed:
        return
    assert "coniii" not in sys.modules, "seams must be installed before coniii is imported"
    _installed = True
    warnings.filterwarnings("ignore")
    import multiprocessing
    import multiprocessing.context
    import multiprocessing.pool
    import multiprocess
    import multiprocess.context
    import multiprocess.pool
    import concurrent.futures
    import concurrent.futures.process
    import concurrent.futures.thread
    import numpy.random.bit_generator as bg

    for m in (multiprocessing, multiprocess):
        _real[m.__name__ + ".Pool"] = m.Pool
        m.Pool = pool_factory
        m.pool.Pool = SimPool
        m.pool.ThreadPool = SimThreadPool
        m.context.BaseContext.Pool = lambda self, *a, **k: SimPool(*a, **k)
        m.context.BaseContext.cpu_count = lambda self: cpu_count()
        m.cpu_count = cpu_count
        for name in ("Process", "Queue", "Pipe", "Manager", "SimpleQueue"):
            pass
    concurrent.futures.ProcessPoolExecutor = SimProcessPoolExecutor
    concurrent.futures.process.ProcessPoolExecutor = SimProcessPoolExecutor
    concurrent.futures.ThreadPoolExecutor = SimThreadPoolExecutor
    concurrent.futures.thread.ThreadPoolExecutor = SimThreadPoolExecutor

    _real["cpu_count"] = os.cpu_count
    os.cpu_count = cpu_count
    _real["sched_getaffinity"] = os.sched_getaffinity
    os.sched_getaffinity = lambda pid=0: set(range(cpu_count())) if sim() is not None else _real["sched_getaffinity"](pid)

    _real["randbits"] = bg.randbits
    bg.randbits = lambda k: sim().entropy.getrandbits(k) if sim() is not None else _real["randbits"](k)
    _real["urandom"] = os.urandom
    os.urandom = lambda n: sim().entropy.randbytes(n) if sim() is not None else _real["urandom"](n)
    import secrets
    _real["secrets.randbits"] = secrets.randbits
    secrets.randbits = bg.randbits

    _real["getpid"] = os.getpid
    os.getpid = lambda: sim().pid if sim() is not None else _real["getpid"]()

    for name, scale, as_int in (("time", 1., False), ("time_ns", 1e9, True), ("monotonic", 1., False),
                                ("perf_counter", 1., False), ("process_time", 1., False)):
        _real["time." + name] = getattr(time, name)
        setattr(time, name, _clock(name, scale, as_int))
    for name in ("strftime", "localtime", "gmtime"):
        _real["time." + name] = getattr(time, name)

    def strftime(fmt, t=None):
        return _real["time.strftime"](fmt, t if t is not None else localtime())

    def localtime(secs=None):
        if secs is None and sim() is not None:
            secs = sim().clock_base + sim().now
        return _real["time.localtime"](secs)

    def gmtime(secs=None):
        if secs is None and sim() is not None:
            secs = sim().clock_base + sim().now
        return _real["time.gmtime"](secs)

    def sleep(dt):
        if sim() is not None:
            sim().advance(dt)
        else:
            _real["time.sleep"](dt)
    _real["time.sleep"] = time.sleep
    time.strftime, time.localtime, time.gmtime, time.sleep = strftime, localtime, gmtime, sleep
    _real["datetime"] = _datetime.datetime
    _datetime.datetime = SimDatetime


def cpu_count():
    s = sim()
    return s.cpu_count if s is not None else _real["cpu_count"]()


real_time = time.perf_counter


class activate:
    """Context manager: make `s` the current simulation."""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        if Sim.current is not None:
            raise HarnessError("nested simulation")
        Sim.current = self.s
        seed_globals(self.s.seed)
        return self.s

    def __exit__(self, *a):
        Sim.current = None
        return False


class outside:
    """Context manager: leave the simulation for the time of the block (real clock, pids, processors)."""

    def __enter__(self):
        self.s, Sim.current = Sim.current, None

    def __exit__(self, *a):
        Sim.current = self.s
        return False
