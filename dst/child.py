"""Run part of a simulation in a forked copy of this process, so that nothing it leaves behind in module-level or class-level
state can reach the other parts.  Decisions, event log and counters of the child's simulation come back to the parent."""
import os
import pickle
import signal
import sys
import traceback

from .core import HarnessError, Violation

LIMIT = float(os.environ.get("DST_RUN_CPU", "150"))
CRASH = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)
KEEP = ("recorded", "now", "seq", "log", "faults", "probes", "counters", "next_pid", "fault_budget", "calls")


def in_child(sim, fn, in_tree=None, carry=True):
    """fn() in a forked child; returns its (picklable) result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                left = signal.getitimer(signal.ITIMER_VIRTUAL)[0]
                if left == 0 and signal.getsignal(signal.SIGVTALRM) not in (signal.SIG_DFL, None):
                    signal.setitimer(signal.ITIMER_VIRTUAL, LIMIT)          # timers do not survive fork
                out = ("ok", fn())
            except Violation as v:
                out = ("violation", v.cls, v.detail)
            except HarnessError as e:
                out = ("harness", repr(e))
            except BaseException as e:
                if type(e).__name__ == "Stuck":
                    out = ("violation", "no-progress", f"no end after {LIMIT:.0f} s of processor time: {e}")
                else:
                    out = ("error", bool(in_tree and in_tree(e.__traceback__)), type(e).__name__,
                           repr(e) + "\n" + "".join(traceback.format_tb(e.__traceback__)[-4:]))
            st = {k: getattr(sim, k) for k in KEEP} if carry else {}
            if carry:
                st["prng"], st["entropy"] = sim.prng.getstate(), sim.entropy.getstate()
            data = pickle.dumps((out, st))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 3
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in CRASH:
        raise Violation("process-crash", f"the process died with {signal.Signals(os.WTERMSIG(status)).name}")
    if status != 0 or not data:
        raise HarnessError(f"forked part of the run ended with status {status}")
    out, st = pickle.loads(data)
    if carry:
        sim.prng.setstate(st.pop("prng"))
        sim.entropy.setstate(st.pop("entropy"))
        for k, v in st.items():
            setattr(sim, k, v)
    if out[0] == "ok":
        return out[1]
    if out[0] == "violation":
        raise Violation(out[1], out[2])
    if out[0] == "harness":
        raise HarnessError(out[1])
    if out[1]:
        raise Violation("unexpected-exception:" + out[2], out[3])
    raise HarnessError("in forked part: " + out[3])
