"""Shared pieces of the history-based properties: executing one step of a
history on one object, optionally with a fault at a chosen instant."""
import errno
import os
import pickle
import select
import signal
import time
import traceback

from sim import world as W
from sim.canon import Raised, brief, digest, outcome, params_view, same
from sim.engine import ENGINE, InjectedError, StepBudgetExceeded, loc_name, pick_instant, raise_at
from sim.runner import Out, Prop, forked, rng, subseed

EXCS = {
    "interrupt": lambda: KeyboardInterrupt("injected"),
    "nomem": lambda: MemoryError("injected"),
    "enospc": lambda: OSError(errno.ENOSPC, "injected"),
    "error": lambda: InjectedError("injected"),
}


class Interrupted(Exception):
    pass


def gen_fault(r, p=0.5, kinds=("interrupt", "interrupt", "nomem", "error")):
    if r.random() >= p:
        return None
    return {"kind": r.choice(kinds), "u": round(r.random(), 6), "v": round(r.random() ** 2, 6)}


def run_faulted(fn, fault, out, label=""):
    """Run fn(), raising fault["kind"] at the instant the fault names.  The
    instant is chosen on a dry run in a throw-away fork of this process."""
    def dry():
        _, exc, n, locs = ENGINE.run_single(fn, record=True)
        at = pick_instant(locs, fault["u"], fault["v"])
        return n, at, (loc_name(*locs[at - 1]) if at else None)
    n, at, where = forked(dry)
    if not at:
        return outcome_all(fn, out)
    exc_f = EXCS[fault["kind"]]
    hook = raise_at(at, exc_f)
    val, exc, m, _ = ENGINE.run_single(fn, hook=hook)
    out.instants += n + m
    if hook.state["fired"]:
        out.hit("fault:" + fault["kind"])
    out.note(label, "fault", fault["kind"], "at instant", at, "of", n, where, "->",
             "returned" if exc is None else type(exc).__name__)
    if exc is None:
        return val
    if hook.state["fired"]:
        return Raised(exc)
    if not isinstance(exc, Exception):
        raise exc
    return Raised(exc)


def outcome_all(fn, out=None):
    """Run with instants counted but no fault."""
    val, exc, n, _ = ENGINE.run_single(fn)
    if out is not None:
        out.instants += n
    if exc is not None:
        if not isinstance(exc, Exception):
            raise exc
        return Raised(exc)
    return val


class Pristine:
    """A second simulated process, forked now and left idle: later it receives
    one pickled request and answers it from the state this process has now."""

    def __init__(self, handler):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                buf, size = b"", None
                while size is None or len(buf) < size + 8:
                    b = os.read(r1, 1 << 20)
                    if not b:
                        break
                    buf += b
                    if size is None and len(buf) >= 8:
                        size = int.from_bytes(buf[:8], "big")
                buf = buf[8:]
                if buf:
                    try:
                        res = ("ok", handler(*pickle.loads(buf)))
                    except BaseException:                # noqa: BLE001
                        res = ("err", traceback.format_exc())
                    b = pickle.dumps(res, protocol=4)
                    mv = memoryview(b)
                    while mv:
                        k = os.write(w2, mv)
                        mv = mv[k:]
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.used = False

    def call(self, *args, timeout=55):
        b = pickle.dumps(args, protocol=4)
        mv = memoryview(len(b).to_bytes(8, "big") + b)
        while mv:
            k = os.write(self.w, mv)
            mv = mv[k:]
        os.close(self.w)
        self.used = True
        buf, t_end = bytearray(), time.monotonic() + timeout
        while True:
            if not select.select([self.r], [], [], max(0.0, t_end - time.monotonic()))[0]:
                os.kill(self.pid, signal.SIGKILL)
                break
            b = os.read(self.r, 1 << 20)
            if not b:
                break
            buf += b
        os.close(self.r)
        os.waitpid(self.pid, 0)
        if not buf:
            raise RuntimeError("pristine process gave no answer")
        kind, v = pickle.loads(bytes(buf))
        if kind == "err":
            raise RuntimeError(v)
        return v

    def close(self):
        if not self.used:
            os.close(self.w)
            os.close(self.r)
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            self.used = True


def short(sp):
    return W.obj_name(sp)
