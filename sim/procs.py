"""Several simulated processes over one real folder.

Each party is a fork of this process that runs under the engine and stops at
instants; the coordinator lets exactly one of them run at a time, for a number
of instants drawn from the seed.  A killed party disappears at an instant with
os._exit: no cleanup code of its own runs, only what is on disk survives.
"""
import os
import pickle
import select
import signal
import struct
import time

from sim.engine import ENGINE

KILL_STATUS = 77


class _Gate:
    """Inside a party: count instants, stop when the granted burst is used up."""

    def __init__(self, cmd, rep, fault):
        self.cmd, self.rep = cmd, rep
        self.left = 0
        self.steps = 0
        self.fault = fault        # (instant, action) or None

    def wait_grant(self):
        b = b""
        while len(b) < 8:
            x = os.read(self.cmd, 8 - len(b))
            if not x:
                os._exit(71)
            b += x
        self.left = struct.unpack("<q", b)[0]

    def __call__(self, eng, code, where):
        self.steps += 1
        if self.fault is not None and self.steps >= self.fault[0]:
            act, self.fault = self.fault[1], None
            act()
        self.left -= 1
        if self.left <= 0:
            os.write(self.rep, b"P")
            self.wait_grant()


class Party:
    def __init__(self, fn, fault=None, cleanup_fds=()):
        """fn() -> picklable value, run in a fork; fault = (instant, callable)."""
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for fd in cleanup_fds:
                    os.close(fd)
                gate = _Gate(r1, w2, fault)
                gate.wait_grant()
                val, exc, n, _ = ENGINE.run_single(fn, hook=gate)
                if exc is not None:
                    val = ("exc", type(exc).__name__, str(exc)[:300], isinstance(exc, Exception))
                else:
                    val = ("ok", val)
                payload = pickle.dumps((val, gate.steps, fault is not None and gate.fault is None), protocol=4)
                os.write(w2, b"D" + struct.pack("<q", len(payload)))
                mv = memoryview(payload)
                while mv:
                    mv = mv[os.write(w2, mv):]
            except BaseException:                        # noqa: BLE001
                os._exit(70)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = w1, r2
        self.state = "parked"     # parked | running | blocked | done | dead
        self.value = None
        self.steps = 0
        self.fired = False
        self.ran = 0

    def fds(self):
        return [self.w, self.r]

    def grant(self, burst):
        self.state = "running"
        self.ran += burst
        os.write(self.w, struct.pack("<q", max(1, burst)))

    def _readn(self, n):
        b = b""
        while len(b) < n:
            x = os.read(self.r, n - len(b))
            if not x:
                return None
            b += x
        return b

    def poll(self, timeout):
        """Wait for the party to stop; True when it did."""
        if not select.select([self.r], [], [], timeout)[0]:
            return False
        b = self._readn(1)
        if b == b"P":
            self.state = "parked"
            return True
        if b == b"D":
            n = struct.unpack("<q", self._readn(8))[0]
            self.value, self.steps, self.fired = pickle.loads(self._readn(n))
            self.state = "done"
        else:
            self.state = "dead"
        self.close()
        return True

    def close(self, kill=False):
        if self.w is None:
            return
        if kill:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        os.close(self.w)
        os.close(self.r)
        self.w = None
        self.status = os.waitpid(self.pid, 0)[1]
        self.fired = self.fired or os.WIFEXITED(self.status) and os.WEXITSTATUS(self.status) == KILL_STATUS


def run_parties(specs, plan, out=None, wall=40):
    """specs: [(fn, fault)]; plan: iterator of (party, burst).  When the plan is
    used up the rest run to their end in order.  Returns (parties, trace, ok):
    ok is False if the parties got stuck on each other."""
    parties = []
    for fn, fault in specs:
        parties.append(Party(fn, fault, [fd for p in parties for fd in p.fds()]))
    trace = []
    t_end = time.monotonic() + wall
    ok = True
    try:
        while True:
            live = [i for i, p in enumerate(parties) if p.state in ("parked", "blocked")]
            if not live:
                break
            ready = [i for i in live if parties[i].state == "parked"]
            nxt = next(plan, None)
            if nxt is not None and nxt[0] in ready:
                i, burst = nxt
            elif nxt is not None and ready:
                i, burst = ready[nxt[0] % len(ready)], nxt[1]
            elif ready:
                i, burst = ready[0], 1 << 40
            else:
                # every living party waits for something another one holds
                got = False
                for i in live:
                    if parties[i].poll(0.2):
                        got = True
                        break
                if not got and time.monotonic() > t_end:
                    ok = False
                    break
                continue
            trace.append([i, burst])
            parties[i].grant(burst)
            while not parties[i].poll(5.0 if len(ready) > 1 else 8.0):
                if time.monotonic() > t_end:
                    ok = False
                    break
                parties[i].state = "blocked"
                break
            if not ok:
                break
            for j in live:
                if parties[j].state == "blocked":
                    parties[j].poll(0)
    finally:
        for p in parties:
            p.close(kill=True)
    return parties, trace, ok
