"""The simulator's hold on the code under test.

Every Python line of the repository's own functions is an *instant*: the
interpreter calls `Engine._on_line` before the line executes (sys.monitoring,
per-code-object LINE events; INSTRUCTION events when a run asks for the finer
grain).  At an instant the engine may

  * hand the baton to another task  (schedule),
  * raise a fault in the running task (crash / interrupt / allocation failure),
  * let another simulated party act  (e.g. draw from a global random stream).

Exactly one task runs at any moment: tasks are real threads, each parked on its
own lock, and only the engine releases one.  No decision reads a clock or an
unseeded random source, so one spec is one execution.  (The one exception: a
task stuck for seconds on a real lock that a parked task holds is parked too,
so that code which adds a lock is not reported as hanging.)
"""
import gc
import os
import sys
import threading
import time
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
_SK = os.path.join(os.path.realpath(REPO), "skada") + os.sep
_TESTS = os.sep + "tests" + os.sep
MON = sys.monitoring
TOOL = 4


class HarnessError(Exception):
    """Something is wrong with the simulator, not with the code under test."""


class StepBudgetExceeded(BaseException):
    """Raised inside a task that has used far more instants than its reference."""


class SimCrash(BaseException):
    """The simulated process dies here; nothing in memory survives."""


class InjectedError(RuntimeError):
    """A fault raised by a simulated collaborator (base estimator, solver)."""


def is_sut(code):
    f = code.co_filename
    return f.startswith(_SK) and _TESTS not in f


def sut_code_objects():
    """All live code objects of the code under test, nested ones included."""
    seen, order = set(), []

    def add(code):
        if id(code) in seen:
            return
        seen.add(id(code))
        order.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and is_sut(o.__code__):
            add(o.__code__)
    return order


class Task:
    __slots__ = ("tid", "name", "fn", "thread", "lock", "done", "result", "exc",
                 "steps", "started", "blocked")

    def __init__(self, tid, name, fn):
        self.tid, self.name, self.fn = tid, name, fn
        self.lock = threading.Lock()
        self.lock.acquire()
        self.done = False
        self.result = None
        self.exc = None
        self.steps = 0
        self.started = False
        self.blocked = False


class Engine:
    """Owns instants.  One engine per process; `reset` between runs."""

    def __init__(self):
        self.active = False
        self.grain = "line"
        self._codes = []
        self._installed = False
        self.hook = None          # callable(engine, code, where) run at each instant
        self.n = 0
        self.trace_locs = None    # list to record (code, line) or None
        self.tasks = {}
        self.cur = None
        self._by_thread = {}
        self.decider = None
        self.switches = []
        self.main_lock = None
        self.budget = None
        self.fault = None         # (mode, payload)
        self.fired = []
        self.failure = None
        self._mutex = threading.Lock()
        self._main_ident = 0
        self.local = None         # (save, load): process-global state each task has its own copy of

    # ---- instrumentation -------------------------------------------------
    def install(self, grain="line"):
        if not self._installed:
            MON.use_tool_id(TOOL, "verif-sim")
            MON.register_callback(TOOL, MON.events.LINE, self._on_line)
            MON.register_callback(TOOL, MON.events.INSTRUCTION, self._on_instr)
            self._installed = True
        codes = sut_code_objects()
        known = {id(c) for c in self._codes}
        for c in codes:
            if id(c) not in known:
                self._codes.append(c)
                MON.set_local_events(TOOL, c, MON.events.LINE)
        self.set_grain(grain)

    def install_extra(self, funcs):
        """Instants also at every line of these library functions and classes
        (and what is nested in them)."""
        todo = []
        for f in funcs:
            if isinstance(f, type):
                for v in vars(f).values():
                    v = getattr(v, "__func__", v)
                    v = getattr(v, "fget", v) if isinstance(v, property) else v
                    if isinstance(v, types.FunctionType):
                        todo.append(v.__code__)
            else:
                todo.append(getattr(f, "__wrapped__", f).__code__)
        known = {id(c) for c in self._codes}
        while todo:
            c = todo.pop()
            if id(c) in known:
                continue
            known.add(id(c))
            self._codes.append(c)
            MON.set_local_events(TOOL, c, MON.events.LINE if self.grain == "line" else MON.events.INSTRUCTION)
            todo.extend(k for k in c.co_consts if isinstance(k, types.CodeType))

    def set_grain(self, grain):
        if grain == self.grain:
            return
        ev = MON.events.LINE if grain == "line" else MON.events.INSTRUCTION
        for c in self._codes:
            MON.set_local_events(TOOL, c, ev)
        self.grain = grain

    def _on_line(self, code, line):
        if self.active:
            self._instant(code, line)

    def _on_instr(self, code, off):
        if self.active:
            self._instant(code, off)

    def point(self, where):
        """An explicit instant in harness-owned code (simulated I/O, stubs)."""
        if self.active:
            self._instant(None, where)

    def _instant(self, code, where):
        if self._by_thread:
            cur = self._by_thread.get(threading.get_ident())
            if cur is None:
                return            # a helper thread of a library: not ours
            if cur is not self.cur:
                if not cur.blocked:
                    return        # parked: nothing of it runs
                self._unblock(cur)
        else:
            cur = self.cur
        if cur is None:
            return
        if self._by_thread:
            pass
        elif threading.get_ident() != self._main_ident:
            return
        self.n += 1
        cur.steps += 1
        if self.trace_locs is not None:
            self.trace_locs.append((code, where))
        if self.budget is not None and self.n > self.budget:
            self.budget = None
            raise StepBudgetExceeded("instants exhausted")
        if self.hook is not None:
            self.hook(self, code, where)
        if self.decider is not None:
            nxt = self.decider(self, cur, code, where)
            if nxt is not None and nxt is not cur and not nxt.done and not nxt.blocked:
                self.switches.append([self.n, nxt.tid])
                self._handoff(cur, nxt)

    # ---- single-task runs -------------------------------------------------
    def run_single(self, fn, hook=None, record=False, budget=None, grain="line"):
        """Run fn() in this thread with instants on. Returns (value, exc, n, locs)."""
        self.set_grain(grain)
        self._by_thread = {}
        self._main_ident = threading.get_ident()
        t = Task(0, "main", fn)
        self.cur, self.n, self.hook, self.budget = t, 0, hook, budget
        self.decider = None
        self.trace_locs = [] if record else None
        self.active = True
        val = exc = None
        try:
            val = fn()
        except BaseException as e:                      # noqa: BLE001
            exc = e
        finally:
            self.active = False
            self.cur = None
            self.hook = None
            self.budget = None
        locs, self.trace_locs = self.trace_locs, None
        if isinstance(exc, HarnessError):
            raise exc
        return val, exc, self.n, locs

    # ---- scheduled runs ---------------------------------------------------
    def run_tasks(self, fns, decider, hook=None, budget=None, grain="line",
                  wall=150, init=None, record=False):
        """Run the callables concurrently under `decider`; returns the tasks."""
        self.set_grain(grain)
        self._by_thread = {}
        self.main_lock = threading.Lock()
        self.main_lock.acquire()
        self.tasks = {}
        for i, f in enumerate(fns):
            self.tasks[i] = Task(i, "t%d" % i, f)
        self.n, self.hook, self.budget = 0, hook, budget
        self.switches, self.decider = [], decider
        self.trace_locs = [] if record else None
        self.active = False

        def body(t):
            t.lock.acquire()
            try:
                if init is not None:
                    self.active = False
                    init()
                    self.active = True
                t.result = t.fn()
            except BaseException as e:                  # noqa: BLE001
                t.exc = e
            t.done = True
            self._finish(t)

        for t in self.tasks.values():
            th = threading.Thread(target=body, args=(t,), daemon=True)
            t.thread = th
            th.start()
            self._by_thread[th.ident] = t
        first = self.tasks[decider.first(self) if hasattr(decider, "first") else 0]
        self.cur = first
        self.active = True
        first.lock.release()
        self._await_tasks(wall)
        self.active = False
        self.cur = None
        for t in self.tasks.values():
            t.thread.join(timeout=30)
        self._by_thread = {}
        self.decider = None
        self.hook = None
        self.budget = None
        for t in self.tasks.values():
            if isinstance(t.exc, HarnessError):
                raise t.exc
        return list(self.tasks.values())

    def _await_tasks(self, wall):
        """Wait for all tasks.  If the running task waits for a lock of the code
        under test that a parked task holds, park it too and run another."""
        t_end, seen, since = time.monotonic() + wall, -1, time.monotonic()
        while not self.main_lock.acquire(timeout=0.5):
            now = time.monotonic()
            if now > t_end:
                self.active = False
                raise HarnessError("simulated tasks made no progress for %ss" % wall)
            if self.n != seen:
                seen, since = self.n, now
            elif now - since > 4:
                with self._mutex:
                    cur = self.cur
                    others = [x for x in self.tasks.values() if not x.done and not x.blocked and x is not cur]
                    if cur is not None and not cur.done and self.n == seen and others:
                        cur.blocked = True
                        self.cur = others[0]
                        others[0].lock.release()
                since = now

    def _unblock(self, t):
        """A task that waited for a lock is running again: make it wait its turn."""
        with self._mutex:
            t.blocked = False
            if self.cur is None:
                self.cur = t
                return
        t.lock.acquire()

    def _handoff(self, cur, nxt):
        mine = self.local[0]() if self.local else None
        with self._mutex:
            self.cur = nxt
            nxt.lock.release()
        cur.lock.acquire()
        if self.local:
            self.local[1](mine)

    def _finish(self, t):
        with self._mutex:
            self._finish_locked(t)

    def _finish_locked(self, t):
        live = [x for x in self.tasks.values() if not x.done]
        if not live:
            self.active = False
            self.cur = None
            self.main_lock.release()
            return
        if self.cur is not t:
            return                # ended while counted as blocked
        live = [x for x in live if not x.blocked]
        if not live:
            self.cur = None
            return
        nxt = self.decider.on_done(self, t, live) if hasattr(self.decider, "on_done") else live[0]
        self.switches.append([-self.n - 1, nxt.tid])
        self.cur = nxt
        nxt.lock.release()


ENGINE = Engine()


# ---- deciders -------------------------------------------------------------
class RandomDecider:
    """Seeded random walk: at each instant switch with probability p."""

    def __init__(self, rng, p, ntasks):
        self.rng, self.p, self.nt = rng, p, ntasks

    def first(self, eng):
        return self.rng.randrange(self.nt)

    def __call__(self, eng, cur, code, where):
        if self.rng.random() >= self.p and where != "bystander":
            return None                                  # an onlooker looks once each time it is run
        live = [t for t in eng.tasks.values() if not t.done]
        return live[self.rng.randrange(len(live))]

    def on_done(self, eng, t, live):
        return live[self.rng.randrange(len(live))]


class PctDecider:
    """Priority schedule with d change points (PCT)."""

    def __init__(self, rng, d, ntasks, est):
        self.rng = rng
        self.prio = list(range(ntasks))
        rng.shuffle(self.prio)
        self.changes = sorted(rng.randrange(1, max(2, est)) for _ in range(d))
        self.low = -1

    def first(self, eng):
        return max(range(len(self.prio)), key=lambda i: self.prio[i])

    def _top(self, eng):
        live = [t for t in eng.tasks.values() if not t.done]
        return max(live, key=lambda t: self.prio[t.tid])

    def __call__(self, eng, cur, code, where):
        if self.changes and eng.n >= self.changes[0]:
            self.changes.pop(0)
            self.prio[cur.tid] = self.low
            self.low -= 1
            return self._top(eng)
        return None

    def on_done(self, eng, t, live):
        return max(live, key=lambda x: self.prio[x.tid])


class PivotDecider:
    """Run task `a`; at its k-th instant let the others run to completion
    (or for `burst` instants), then resume it."""

    def __init__(self, a, ks, ntasks, order=None):
        self.a, self.ks, self.nt = a, sorted(ks), ntasks
        self.order = order or [i for i in range(ntasks) if i != a]

    def first(self, eng):
        return self.a

    def __call__(self, eng, cur, code, where):
        if cur.tid == self.a and self.ks and cur.steps >= self.ks[0]:
            self.ks.pop(0)
            for i in self.order:
                if not eng.tasks[i].done:
                    return eng.tasks[i]
        return None

    def on_done(self, eng, t, live):
        if t.tid in self.order and len(self.ks) > 0:
            # resume the pivot task so it can reach its next switch point
            for x in live:
                if x.tid == self.a:
                    return x
        for i in self.order:
            if not eng.tasks[i].done:
                return eng.tasks[i]
        return live[0]


class TraceDecider:
    """Replay a recorded list of [instant, task] switches (negative: at task end)."""

    def __init__(self, switches, first):
        self.sw = {}
        self.ends = []
        for n, tid in switches:
            if n >= 0:
                self.sw[n] = tid
            else:
                self.ends.append(tid)
        self._first = first

    def first(self, eng):
        return self._first

    def __call__(self, eng, cur, code, where):
        tid = self.sw.get(eng.n)
        if tid is None:
            return None
        return eng.tasks.get(tid)

    def on_done(self, eng, t, live):
        while self.ends:
            tid = self.ends.pop(0)
            for x in live:
                if x.tid == tid:
                    return x
        return live[0]


class Recording:
    """Wraps a decider to remember which task it started."""

    def __init__(self, inner):
        self.inner = inner
        self.first_tid = None

    def first(self, eng):
        self.first_tid = self.inner.first(eng)
        return self.first_tid

    def __call__(self, eng, cur, code, where):
        return self.inner(eng, cur, code, where)

    def on_done(self, eng, t, live):
        return self.inner.on_done(eng, t, live)


def make_decider(sched, ntasks, rng_factory, est):
    """sched: JSON description -> decider."""
    kind = sched["kind"]
    if kind == "trace":
        return TraceDecider(sched["switches"], sched["first"])
    rng = rng_factory("sched", sched["seed"])
    if kind == "random":
        return RandomDecider(rng, sched["p"], ntasks)
    if kind == "pct":
        return PctDecider(rng, sched["d"], ntasks, est)
    if kind == "pivot":
        a = rng.randrange(ntasks)
        per = max(1, est // max(1, ntasks))
        m = sched.get("m", 1)
        ks = [1 + rng.randrange(per) for _ in range(m)]
        order = [i for i in range(ntasks) if i != a]
        rng.shuffle(order)
        return PivotDecider(a, ks, ntasks, order)
    raise HarnessError("unknown schedule kind %r" % kind)


def gen_sched(rng, ntasks=None):
    r = rng.random()
    seed = rng.randrange(1 << 30)
    if r < 0.4:
        return {"kind": "random", "seed": seed,
                "p": rng.choice([0.003, 0.01, 0.03, 0.1, 0.3, 0.7])}
    if r < 0.65:
        return {"kind": "pct", "seed": seed, "d": rng.choice([1, 2, 3, 5])}
    return {"kind": "pivot", "seed": seed, "m": rng.choice([1, 1, 2, 3])}


def pick_instant(locs, u_loc, u_occ):
    """Choose an instant from a recorded trace so that every distinct line is
    equally likely; returns its 1-based index (0 if there is none)."""
    if not locs:
        return 0
    first, occ = {}, {}
    keys = []
    for i, (code, where) in enumerate(locs):
        k = (id(code), where)
        if k not in first:
            first[k] = i
            keys.append(k)
            occ[k] = []
        occ[k].append(i)
    k = keys[min(len(keys) - 1, int(u_loc * len(keys)))]
    o = occ[k]
    return o[min(len(o) - 1, int(u_occ * len(o)))] + 1


def raise_at(n, exc_factory):
    """Hook: raise exc_factory() at the n-th instant (once)."""
    state = {"fired": False, "at": None}

    def hook(eng, code, where):
        if not state["fired"] and eng.n >= n:
            state["fired"] = True
            state["at"] = (code.co_qualname if code is not None else "sim", where)
            raise exc_factory()
    hook.state = state
    return hook


def loc_name(code, where):
    if code is None:
        return str(where)
    return "%s:%s" % (os.path.basename(code.co_filename), code.co_qualname)
