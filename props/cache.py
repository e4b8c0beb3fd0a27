"""Pipelines with a result cache on disk (H08).

Every step of a run is one simulated process over a real (scratch) cache folder:
it builds the pipeline with `memory=`, fits and evaluates it one or more times,
and may be interrupted or killed at any line of the library, of joblib's cache
code or at any write.  Between processes, cache files get lost or cut short.
The oracle is the same pipeline without a cache, in a process of its own."""
import errno
import os
import shutil
import tempfile
import warnings

from joblib import Memory
import joblib.memory as jmem
import joblib._store_backends as jstore
import joblib.disk as jdisk
import joblib.numpy_pickle as jpick

from sim.engine import gen_sched, make_decider, Recording
from sim.procs import KILL_STATUS, run_parties
from .common import (ENGINE, EXCS, Out, Raised, W, brief, digest, forked, loc_name, outcome, pick_instant, rng, same,
                     subseed)
from .conc import init_thread
from .hist import HistProp, as_test, gen_dataset_family, observe, reconfigure, H02

Store = jstore.FileSystemStoreBackend
DISK = {"pol": None, "n": 0, "hits": 0, "fired": 0, "writes": 0}


class _Short:
    """A file on a disk that fills up after `limit` bytes."""

    def __init__(self, f, limit):
        self.f, self.left = f, limit

    def write(self, b):
        n = memoryview(b).nbytes
        if n > self.left:
            self.f.write(bytes(memoryview(b).cast("B")[:self.left]) if self.left else b"")
            self.f.flush()
            self.left = 0
            DISK["fired"] += 1
            raise OSError(errno.ENOSPC, "simulated full disk")
        self.left -= n
        r = self.f.write(b)
        ENGINE.point("disk:write")
        return r

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, k):
        return getattr(self.f, k)


class _Quiet:
    """joblib reports entries it could not read or write as warnings."""

    def __getattr__(self, k):
        return getattr(warnings, k)

    @staticmethod
    def warn(*a, **k):
        DISK["warned"] = DISK.get("warned", 0) + 1


def _entry(path):
    return any(x in os.path.basename(path) for x in ("output.pkl", "metadata.json"))


def sim_open(path, mode="r", *a, **k):
    ENGINE.point("disk:open")
    pol = DISK["pol"]
    if "w" in mode:
        DISK["writes"] += 1
        if pol and _entry(path):
            DISK["n"] += 1
            if pol["kind"] == "eacces" and DISK["n"] > pol["n"]:
                DISK["fired"] += 1
                raise PermissionError(errno.EACCES, "simulated unwritable cache")
            if pol["kind"] == "enospc" and DISK["n"] > pol["n"]:
                return _Short(open(path, mode, *a, **k), int(pol["limit"]))
        return _Short(open(path, mode, *a, **k), 1 << 60)
    if pol and pol["kind"] == "eio" and _entry(path):
        DISK["n"] += 1
        if DISK["n"] > pol["n"]:
            DISK["fired"] += 1
            raise OSError(errno.EIO, "simulated read error")
    return open(path, mode, *a, **k)


_ready = []


def setup_cache():
    if _ready:
        return
    _ready.append(1)
    Store._open_item = staticmethod(sim_open)
    real_load = Store.load_item

    def load_item(self, *a, **k):
        v = real_load(self, *a, **k)
        DISK["hits"] += 1
        return v
    Store.load_item = load_item
    real_move = Store._move_item

    def move(a, b):
        ENGINE.point("disk:rename")
        real_move(a, b)
        ENGINE.point("disk:renamed")
    Store._move_item = staticmethod(move)
    jmem.warnings = jstore.warnings = _Quiet()
    W.setup_process(torch_too=False)
    ENGINE.install_extra([jmem.MemorizedFunc, jmem.Memory, jstore.StoreBackendMixin, jstore.FileSystemStoreBackend, sim_open,
                          jstore.concurrency_safe_write, jdisk.mkdirp, jdisk.rm_subdirs,
                          jpick.dump, jpick.NumpyPickler, jpick.NumpyArrayWrapper, _Short])


def memory_for(kind, root):
    loc = os.path.join(root, "cache")
    if kind == "path":
        return loc
    if kind == "compress":
        return Memory(loc, verbose=0, compress=3)
    if kind == "mmap":
        return Memory(loc, verbose=0, mmap_mode="r")
    return Memory(loc, verbose=0)


class H08(HistProp):
    pid = "H08"
    rule = ("a run counts when at least one answer was produced with an entry read back from the cache, or after a fault, kill or damage "
            "of the cache; distinct by object, data, faults with their instants, damage and outcomes")
    real = ["skada pipelines, selectors, adapters", "sklearn Pipeline caching", "joblib.Memory and its file store", "the file system (scratch folder)"]
    stubs = ["file opening and renaming of joblib's store pass through a seam that can fail", "some base estimators (StubClassifier/StubRegressor)"]
    assumptions = ["a killed process loses its memory, not what it wrote (no power loss): files are complete, cut short, or missing",
                   "cache contents are not replaced by other valid contents", "every random_state is given"]
    quick = {"seconds": 34, "runs": 200000}
    allow = ("pipe",)

    def setup(self):
        warnings.simplefilter("ignore")
        setup_cache()

    # -- runs ------------------------------------------------------------------
    def gen_proc(self, r, nd, two):
        acts = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            a = {"d": r.randrange(nd), "how": r.choice(["fit", "fit", "fit", "fit_transform"])}
            if two and r.random() < 0.4:
                a["cfg"] = 1
            if r.random() < 0.2:
                a["inplace"] = True
            acts.append(a)
        p = {"acts": acts, "mem": r.choice(["path", "path", "memory", "memory", "compress", "mmap"])}
        x = r.random()
        if x < 0.4:
            p["fault"] = {"kind": r.choice(["kill", "kill", "kill", "interrupt", "nomem", "enospc"]), "u": round(r.random(), 6), "v": round(r.random(), 6)}
        elif x < 0.6:
            p["disk"] = {"kind": r.choice(["eacces", "enospc", "eio"]), "n": r.choice([0, 0, 1, 2]), "limit": r.choice([0, 10, 300, 2000, 20000])}
        if r.random() < 0.3:
            p["damage"] = [{"kind": r.choice(["trunc", "trunc", "empty", "missing", "missing", "nodir", "junk"]), "u": round(r.random(), 4),
                            "v": round(r.random(), 4)} for _ in range(r.choice([1, 1, 2, 4]))]
        if p["mem"] == "mmap":
            p.pop("disk", None)                          # joblib itself fails when it cannot map what it could not write
        return p

    def gen(self, r, tier):
        while True:
            sp, tk = W.gen_object(r, self.allow)
            if sp["kind"] == "pipe" and len(sp["steps"]) >= 2:
                break
        ds = gen_dataset_family(r, sp, tk, 2)
        if r.random() < 0.5:                             # the same samples, other labels or domains
            ds[1] = dict(ds[0], twin=r.choice(["y", "sd", "X"]))
        spec = {"obj": sp, "task": tk, "data": ds, "seed": r.randrange(1 << 30)}
        if r.random() < 0.5:
            spec["obj2"] = H02.variant(r, sp)
        if sp["kind"] == "pipe" and not W.has_sel(sp) and "sw" not in sp and r.random() < 0.2:
            # the same steps, with and without masking: told apart by the selectors alone
            st = sp["steps"]
            if r.random() < 0.7:
                st = [{"kind": "plain", "name": "labels"}] + [x for x in st if x["kind"] != "plain"]
            m = r.random() < 0.5
            spec["obj"], spec["obj2"] = dict(sp, steps=st, mask=m), dict(sp, steps=st, mask=not m)
            spec["rebuild"] = True
            for d in ds:
                d.pop("masked", None)
        n = r.choice([2, 2, 3]) if tier == "quick" else r.choice([2, 3, 4, 6])
        spec["procs"] = [self.gen_proc(r, len(ds), "obj2" in spec) for _ in range(n)]
        spec["procs"][-1].pop("fault", None)
        spec["tests"] = [[as_test(d, r)] for d in ds]
        if r.random() < 0.3:
            spec["together"] = {"kind": r.choice(["procs", "threads"]), "seed": r.randrange(1 << 30), "mean": r.choice([5, 40, 200, 1000]),
                                "m": r.choice([1, 2, 3])}
            spec["together"]["sched"] = gen_sched(r)
            for p in spec["procs"]:
                p["acts"] = p["acts"][:1]
                if spec["together"]["kind"] == "threads":
                    p.pop("fault", None)
                    p.pop("disk", None)
        return spec

    def shrink(self, spec):
        ps = spec["procs"]
        for i in range(len(ps)):
            if len(ps) > 1:
                yield dict(spec, procs=ps[:i] + ps[i + 1:])
        if spec.get("together"):
            yield {k: v for k, v in spec.items() if k != "together"}
        for i, p in enumerate(ps):
            for k in ("fault", "disk", "damage"):
                if k in p:
                    yield dict(spec, procs=ps[:i] + [{a: b for a, b in p.items() if a != k}] + ps[i + 1:])
            if p["mem"] != "path":
                yield dict(spec, procs=ps[:i] + [dict(p, mem="path")] + ps[i + 1:])
            for j in range(len(p["acts"])):
                if len(p["acts"]) > 1:
                    yield dict(spec, procs=ps[:i] + [dict(p, acts=p["acts"][:j] + p["acts"][j + 1:])] + ps[i + 1:])
                a = p["acts"][j]
                for k in ("cfg", "inplace"):
                    if k in a:
                        b = {x: y for x, y in a.items() if x != k}
                        yield dict(spec, procs=ps[:i] + [dict(p, acts=p["acts"][:j] + [b] + p["acts"][j + 1:])] + ps[i + 1:])
        for s in HistProp.shrink(self, {k: v for k, v in spec.items() if k not in ("tests",)}):
            s["tests"] = spec["tests"]
            yield s

    # -- pieces ----------------------------------------------------------------
    @staticmethod
    def data(spec, i):
        ds = spec["data"][i]
        D = W.make_data({k: v for k, v in ds.items() if k != "twin"})
        t = ds.get("twin")
        if t:
            import numpy as np
            g = np.random.RandomState(spec["seed"] % 1000)
            src = np.flatnonzero(D["sd"] >= 0)
            if t == "y":
                p = src.copy()
                g.shuffle(p)
                D["y"] = D["y"].copy()
                D["y"][src] = D["y"][p]
            elif t == "X":
                D["X"] = D["X"].copy()
                D["X"][0, 0] += 1.0
            else:
                # the roles of source and target are swapped where that is possible
                D["sd"] = -D["sd"]
                D["y"] = D["y_true"]
        return D

    @staticmethod
    def tests(spec, i):
        return [W.make_data({k: v for k, v in t.items() if k != "twin"}) for t in spec["tests"][i]]

    def one_act(self, spec, est, sp, a, buf):
        D = self.data(spec, a["d"])
        if a.get("inplace") and buf.get("X") is not None and buf["X"].shape == D["X"].shape and buf["X"].dtype == D["X"].dtype:
            for k in ("X", "y", "sd"):                   # the caller refills the buffers used before
                if buf[k].shape == D[k].shape and buf[k].dtype == D[k].dtype:
                    buf[k][...] = D[k]
                    D[k] = buf[k]
        buf.update(D)
        W.seed_globals(subseed(spec["seed"], "final"))
        v = outcome(lambda: W.do_fit(est, sp, D, a["how"]))
        res = {"fit": v}
        if not isinstance(v, Raised):
            res.update(observe(est, sp, self.data(spec, a["d"]), self.tests(spec, a["d"]), spec["seed"]))
        return res

    def program(self, spec, p, root):
        """What one simulated process does: [(result, interrupted)] per act."""
        sps = [spec["obj"], spec.get("obj2") or spec["obj"]]

        def go():
            DISK.update(pol=p.get("disk"), n=0, hits=0, fired=0, writes=0)
            est, cur, buf, res = None, None, {}, []
            for a in p["acts"]:
                c = a.get("cfg", 0)
                try:
                    if est is None:
                        est, cur = W.build(sps[c], memory=memory_for(p["mem"], root)), c
                    elif c != cur and spec.get("rebuild"):
                        est, cur = W.build(sps[c], memory=memory_for(p["mem"], root)), c
                    elif c != cur:
                        reconfigure(est, W.build(sps[c]))
                        cur = c
                    res.append(("done", self.one_act(spec, est, sps[c], a, buf)))
                except BaseException as e:               # noqa: BLE001
                    res.append(("exc", Raised(e)))
                    est = None
            return {"res": res, "hits": DISK["hits"], "disk": DISK["fired"]}
        return go

    def dry(self, spec, p, root):
        def run():
            probe = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
            try:
                if os.path.isdir(os.path.join(root, "cache")):
                    shutil.copytree(os.path.join(root, "cache"), os.path.join(probe, "cache"))
                _, _, n, locs = ENGINE.run_single(self.program(spec, p, probe), record=True)
                f = p["fault"]
                u = f["u"]
                if u < 0.6:
                    # mostly around the cache itself: entries being written
                    st = [i for i, (c, w) in enumerate(locs) if c is None or "joblib" in c.co_filename]
                    if st:
                        at = pick_instant([locs[i] for i in st], u / 0.6, f["v"])
                        return st[at - 1] + 1, loc_name(*locs[st[at - 1]])
                at = pick_instant(locs, (u - 0.6) / 0.4 if u >= 0.6 else u, f["v"])
                return at, (loc_name(*locs[at - 1]) if at else None)
            finally:
                shutil.rmtree(probe, ignore_errors=True)
        return forked(run)

    @staticmethod
    def damage(root, ds, out):
        for d in ds or ():
            files, dirs = [], []
            for a, b, c in os.walk(os.path.join(root, "cache")):
                files += [os.path.join(a, x) for x in sorted(c)]
                dirs += [os.path.join(a, x) for x in b if len(x) == 32]
            # mostly the entries themselves
            files = sorted(files, key=lambda f: (os.path.basename(f) != "output.pkl", f))
            if not files:
                continue
            f = files[min(len(files) - 1, int(d["u"] ** 2 * len(files)))]
            size = os.path.getsize(f)
            k = d["kind"]
            if k == "missing":
                os.unlink(f)
            elif k == "nodir" and dirs:
                shutil.rmtree(sorted(dirs)[int(d["u"] * len(dirs)) % len(dirs)])
            elif k == "junk":
                with open(f + ".0123456789abcdef-1-2", "wb") as g:
                    g.write(b"left over")
            else:
                with open(f, "r+b") as g:
                    g.truncate(0 if k == "empty" else int(d["v"] * size))
            out.hit("fault:cache-" + k)
            out.nontrivial = True
            out.note("damage", k, os.path.basename(f))

    def refs(self, spec):
        keys = sorted({(a["d"], a.get("cfg", 0), a["how"]) for p in spec["procs"] for a in p["acts"]})
        sps = [spec["obj"], spec.get("obj2") or spec["obj"]]

        def run():
            out = {}
            for d, c, how in keys:
                out[(d, c, how)] = self.one_act(spec, W.build(sps[c]), sps[c], {"d": d, "how": how}, {})
            return out
        return forked(run)

    def judge(self, spec, i, p, val, fired, refs, out):
        for a, (kind, v) in zip(p["acts"], val["res"]):
            ref = refs[(a["d"], a.get("cfg", 0), a["how"])]
            if kind == "exc":
                if fired:
                    out.note("proc", i, "act interrupted", brief(v, 50))
                    continue
                out.fail(self.sig(spec, "raises"), "process %d: the caching pipeline raised %r" % (i, v))
                return
            if fired and isinstance(v["fit"], Raised):
                out.note("proc", i, "act failed", brief(v["fit"], 50))
                continue
            if fired and any(isinstance(x, Raised) and not isinstance(ref.get(k), Raised) for k, x in v.items()):
                continue                                 # the fault hit an evaluation of this act
            d = same(v, ref)
            if d:
                out.fail(self.sig(spec, "differs"), "process %d (memory=%s, data %d, cfg %d, %d entries read from the cache): the caching pipeline "
                         "differs from the one without cache at %s" % (i, p["mem"], a["d"], a.get("cfg", 0), val["hits"], d))
                return
        out.note("proc", i, p["mem"], "hits", val["hits"], "disk faults", val["disk"], "acts", len(val["res"]))

    def take(self, spec, i, p, party, out, refs):
        f = p.get("fault")
        out.instants += party.steps
        if f and party.fired:
            out.hit("fault:" + f["kind"])
            out.nontrivial = True
        if party.state == "dead":
            if not (f and f["kind"] == "kill" and party.fired):
                raise RuntimeError("simulated process died (status %s)" % party.status)
            out.note("proc", i, "killed", p.get("_where"))
            return
        if party.value[0] == "exc":
            raise RuntimeError(party.value)
        val = party.value[1]
        out.hit("entries read from the cache", val["hits"])
        if val["hits"] or val["disk"]:
            out.nontrivial = True
        if val["disk"]:
            out.hit("fault:disk-" + p["disk"]["kind"], val["disk"])
        self.judge(spec, i, p, val, party.fired, refs, out)

    def fault_of(self, spec, p, root, out, i):
        f = p.get("fault")
        if not f:
            return None
        at, where = self.dry(spec, p, root)
        if not at:
            return None
        out.note("proc", i, f["kind"], "at", at, where)
        if f["kind"] == "kill":
            def act():
                os._exit(KILL_STATUS)
        else:
            def act():
                raise EXCS[f["kind"]]()
        return at, act

    def run(self, spec):
        out = Out()
        root = tempfile.mkdtemp(prefix="cache-", dir=os.environ.get("VERIF_SCRATCH"))
        try:
            refs = self.refs(spec)
            out.hit("reference fits", len(refs))
            tog = spec.get("together")
            if tog:
                for p in spec["procs"]:
                    self.damage(root, p.get("damage"), out)
                (self.threads if tog["kind"] == "threads" else self.procs)(spec, root, refs, out)
                if out.viol is None:
                    # what they left behind serves one more process
                    self.sequence(spec, [dict(p, acts=p["acts"]) for p in spec["procs"][-1:]], root, refs, out)
            else:
                self.sequence(spec, spec["procs"], root, refs, out)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        out.state = digest([spec["obj"], spec["data"], out.log])
        return out

    def sequence(self, spec, procs, root, refs, out):
        for i, p in enumerate(procs):
            self.damage(root, p.get("damage"), out)
            fault = self.fault_of(spec, p, root, out, i)
            parties, _, ok = run_parties([(self.program(spec, p, root), fault)], iter(()))
            if not ok:
                out.fail(self.sig(spec, "no-progress"), "the caching pipeline never finished")
                return
            self.take(spec, i, p, parties[0], out, refs)
            if out.viol:
                return

    def procs(self, spec, root, refs, out):
        tog = spec["together"]
        specs = [(self.program(spec, p, root), self.fault_of(spec, p, root, out, i)) for i, p in enumerate(spec["procs"])]
        n = len(specs)

        def plan():
            if "bursts" in tog:
                yield from (tuple(x) for x in tog["bursts"])
                return
            g = rng("plan", tog["seed"])
            for _ in range(300):
                yield g.randrange(n), 1 + int(g.expovariate(1.0 / tog["mean"]))
        parties, trace, ok = run_parties(specs, plan(), out)
        out.hit("process switches", len(trace))
        out.hit("concurrent process runs")
        out.nontrivial = True
        if not ok:
            out.fail(self.sig(spec, "no-progress"), "concurrent users of one cache wait for each other for ever")
        for i, (p, party) in enumerate(zip(spec["procs"], parties)):
            if out.viol is None:
                self.take(spec, i, p, party, out, refs)
        if out.viol and "bursts" not in tog:
            out.viol["trace_spec"] = dict(spec, together=dict(tog, bursts=trace))

    def threads(self, spec, root, refs, out):
        tog = spec["together"]
        sps = [spec["obj"], spec.get("obj2") or spec["obj"]]
        mem = memory_for(spec["procs"][0]["mem"], root)
        fns = []
        keep = []
        for p in spec["procs"]:
            a = p["acts"][0]
            D = self.data(spec, a["d"])
            T = self.tests(spec, a["d"])

            def go(p=p, a=a, D=D, T=T):
                sp = sps[a.get("cfg", 0)]
                est = W.build(sp, memory=mem)
                v = outcome(lambda: W.do_fit(est, sp, D, a["how"]))
                return est, v
            fns.append(go)
            keep.append((p, a))
        DISK.update(pol=None, n=0, hits=0, fired=0, writes=0)
        dec = Recording(make_decider(tog["sched"], len(fns), rng, 4000))
        done = ENGINE.run_tasks(fns, dec, init=init_thread, wall=50)
        sw = ENGINE.switches
        out.instants += ENGINE.n
        out.hit("thread switches", len(sw))
        out.hit("concurrent thread runs")
        out.hit("entries read from the cache", DISK["hits"])
        out.note("switches", len(sw), sw[:30])
        out.nontrivial = out.nontrivial or bool(sw) or DISK["hits"] > 0
        for i, ((p, a), t) in enumerate(zip(keep, done)):
            if t.exc is not None:
                raise t.exc
            est, v = t.result
            sp = sps[a.get("cfg", 0)]
            res = {"fit": v}
            if not isinstance(v, Raised):
                res.update(observe(est, sp, self.data(spec, a["d"]), self.tests(spec, a["d"]), spec["seed"]))
            d = same(res, refs[(a["d"], a.get("cfg", 0), a["how"])])
            if d:
                out.fail(self.sig(spec, "differs"), "thread %d sharing the cache: differs from the pipeline without cache at %s" % (i, d))
                if tog["sched"].get("kind") != "trace":
                    out.viol["trace_spec"] = dict(spec, together=dict(tog, sched={"kind": "trace", "first": dec.first_tid, "switches": sw}))
                return
