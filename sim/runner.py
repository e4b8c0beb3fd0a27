"""Drives one property: generates specs from VERIF_SEED, runs them in worker
processes, minimises and replays violations, writes the evidence file."""
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")

PY_ENV = {
    "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
    "LANG": "C.UTF-8", "POT_BACKEND_DISABLE_JAX": "1", "POT_BACKEND_DISABLE_TENSORFLOW": "1", "POT_BACKEND_DISABLE_CUPY": "1", "JOBLIB_MULTIPROCESSING": "0", "PYTHONWARNINGS": "ignore",
}


def rng(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def subseed(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:4], "big") % (2 ** 31 - 1)


class Prop:
    """One property: how to draw a run, execute it, and simplify it."""
    pid = ""
    module = ""
    rule = ""
    level = "exploration"
    real = []          # components that run real code
    stubs = []         # components replaced by the simulator
    assumptions = []
    quick = {"seconds": 35, "runs": 200000}
    thorough = {"seconds": 600, "runs": 10000000}
    needs_torch = False
    wall_per_run = 60
    batch = 1          # runs per forked process image

    def setup(self):
        pass

    def gen(self, r, tier):
        raise NotImplementedError

    def run(self, spec):
        raise NotImplementedError

    def shrink(self, spec):
        return []


class Out:
    """What one run observed."""

    def __init__(self):
        self.viol = None
        self.nontrivial = False
        self.state = ""
        self.counts = {}
        self.instants = 0
        self.log = []

    def hit(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def note(self, *a):
        self.log.append(" ".join(map(str, a)))

    def fail(self, sig, msg):
        if self.viol is None:
            self.viol = {"sig": sig, "msg": msg[:1500]}

    def logdigest(self):
        return hashlib.sha1("\n".join(self.log).encode()).hexdigest()[:16]


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: "):
                head, _, what = line[len("finding: "):].partition(" :: ")
                f = dict(p.split("=", 1) for p in head.split(" ") if "=" in p)
                if f.get("property") == pid:
                    out[f["sig"]] = what
    return out


class _RunTimeout(Exception):
    pass


def _write_all(fd, b):
    mv = memoryview(b)
    while mv:
        k = os.write(fd, mv)
        mv = mv[k:]


def _child_result(prop, spec):
    o = prop.run(spec)
    return {"viol": o.viol, "nontrivial": o.nontrivial, "state": o.state or o.logdigest(), "counts": o.counts,
            "instants": o.instants, "log": o.log[:200], "ld": o.logdigest()}


class ChildDied(Exception):
    pass


def forked(fn, timeout=120):
    """fn() evaluated in a fork of this process; its pickled value.  The child
    starts from exactly the state this process has now and its effects on
    memory are lost when it ends."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                payload = pickle.dumps(("ok", fn()), protocol=4)
            except BaseException:                        # noqa: BLE001
                payload = pickle.dumps(("err", traceback.format_exc()), protocol=4)
            _write_all(w, payload)
        except BaseException:                            # noqa: BLE001
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    buf, t_end = bytearray(), time.monotonic() + timeout
    try:
        while True:
            left = t_end - time.monotonic()
            if left <= 0:
                raise _RunTimeout()
            if not select.select([r], [], [], left)[0]:
                raise _RunTimeout()
            b = os.read(r, 1 << 20)
            if not b:
                break
            buf += b
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL) if not buf or time.monotonic() > t_end else None
        except OSError:
            pass
        st = os.waitpid(pid, 0)[1]
    if not buf:
        raise ChildDied("simulated process died without a result (wait status %d)" % st)
    kind, val = pickle.loads(bytes(buf))
    if kind == "err":
        raise ChildDied(val)
    return val


class _Res:
    def __init__(self, d):
        self.__dict__.update(d)

    def logdigest(self):
        return self.ld


def guarded_run(prop, spec):
    """One run, in its own process image: nothing an earlier run left behind in
    memory can reach it, so its spec alone determines it."""
    return _Res(forked(lambda: _child_result(prop, spec), prop.wall_per_run))


def guarded_batch(prop, specs):
    """Several cheap runs sharing one process image; a violating run is repeated
    alone by the caller."""
    if len(specs) == 1:
        return [guarded_run(prop, specs[0])]
    return [_Res(d) for d in forked(lambda: [_child_result(prop, s) for s in specs], prop.wall_per_run)]


def minimise(prop, spec, sig, seconds):
    """Shrink the seeded spec first (its schedule is regenerated from the seed
    each time), then the schedule it took, as an explicit list of switches."""
    t0 = time.time()
    tried = 0

    def holds(cand):
        try:
            o = guarded_run(prop, json.loads(json.dumps(cand)))
        except Exception:                                # noqa: BLE001
            return None
        return o if o.viol and o.viol["sig"] == sig else None

    def descend(best, until):
        nonlocal tried
        improved, last = True, None
        while improved and time.time() - t0 < until:
            improved = False
            for cand in prop.shrink(best):
                if time.time() - t0 > until:
                    break
                tried += 1
                o = holds(cand)
                if o:
                    best, improved, last = cand, True, o
                    break
        return best, last

    best, last = descend(spec, seconds * 0.6)
    last = last or holds(best)
    if last and last.viol.get("trace_spec"):
        t = last.viol["trace_spec"]
        if holds(t):
            best, _ = descend(t, seconds)
    return best, tried


def _isolate_cwd():
    d = tempfile.mkdtemp(prefix="verif-sim-")
    os.chdir(d)
    return d


def get_prop(pid):
    sys.path.insert(0, VERIF)
    from props import REGISTRY
    modname, cls = REGISTRY[pid]
    mod = importlib.import_module("props." + modname)
    return getattr(mod, cls)()


def worker(pid, tier, seed, k, n, seconds, runs, outpath):
    scratch = _isolate_cwd()
    os.environ["VERIF_SCRATCH"] = scratch
    try:
        return _worker(pid, tier, seed, k, n, seconds, runs, outpath)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def _emit(f, obj):
    f.write(json.dumps(obj) + "\n")
    f.flush()


def _worker(pid, tier, seed, k, n, seconds, runs, outpath):
    out = open(outpath, "w")
    try:
        prop = get_prop(pid)
        prop.setup()
        known = load_known(pid)
        cfg = prop.thorough if tier == "thorough" else prop.quick
        seconds = seconds or cfg["seconds"]
        runs = runs or cfg["runs"]
    except BaseException:                                # noqa: BLE001
        _emit(out, {"t": "error", "where": "setup", "tb": traceback.format_exc()})
        return 2
    t0 = time.time()
    agg = {"runs": 0, "nontrivial": 0, "instants": 0, "counts": {}, "known": {}}
    states, samples, timeouts = set(), [], 0
    i = k
    want_log = os.environ.get("VERIF_LOGDIGEST")
    stop = False
    gc.collect()
    gc.freeze()
    while i < runs and time.time() - t0 < seconds and not stop:
        batch = []
        while len(batch) < prop.batch and i < runs:
            spec = prop.gen(rng(seed, pid, tier, i), tier)
            spec["_run"] = i
            batch.append(spec)
            i += n
        try:
            try:
                outs = guarded_batch(prop, batch)
            except (ChildDied, _RunTimeout):
                if len(batch) == 1:
                    raise
                outs = [guarded_run(prop, s) for s in batch]
        except _RunTimeout:
            # a run that normally takes well under a second has not finished
            timeouts += 1
            bad = batch[0]
            for s in batch:
                try:
                    guarded_run(prop, s)
                except _RunTimeout:
                    _emit(out, {"t": "viol", "spec": s, "orig": s, "sig": "no-progress", "final": True, "i": s["_run"],
                                "msg": "the simulated process made no progress within %ss, twice" % prop.wall_per_run})
                    stop = True
                    break
            _emit(out, {"t": "timeout", "spec": bad})
            continue
        except BaseException:                            # noqa: BLE001
            _emit(out, {"t": "error", "where": "run", "tb": traceback.format_exc(), "spec": batch[0]})
            return 2
        for spec, o in zip(batch, outs):
            agg["runs"] += 1
            agg["instants"] += o.instants
            for c, v in o.counts.items():
                agg["counts"][c] = agg["counts"].get(c, 0) + v
            if o.nontrivial:
                agg["nontrivial"] += 1
                states.add(o.state)
                if len(samples) < 2:
                    samples.append({"spec": spec, "log": o.log[:25]})
            if want_log:
                _emit(out, {"t": "log", "i": spec["_run"], "d": o.ld, "v": (o.viol or {}).get("sig")})
            if not o.viol or stop:
                continue
            sig = o.viol["sig"]
            if sig in known:
                agg["known"][sig] = agg["known"].get(sig, 0) + 1
                continue
            base = spec
            _emit(out, {"t": "viol", "spec": base, "orig": spec, "sig": sig, "msg": o.viol["msg"], "final": False, "i": spec["_run"]})
            best, tried = minimise(prop, base, sig, 45 if tier == "quick" else 120)
            o2 = guarded_run(prop, json.loads(json.dumps(best)))
            msg = o2.viol["msg"] if o2.viol else o.viol["msg"]
            _emit(out, {"t": "viol", "spec": best, "orig": spec, "sig": sig, "msg": msg, "final": True,
                        "i": spec["_run"], "shrinks": tried, "log": o2.log[:60]})
            stop = True
    _emit(out, {"t": "done", "agg": agg, "states": sorted(states)[:60000], "nstates": len(states),
                "samples": samples, "wall": time.time() - t0})
    return 0


def child_env():
    e = dict(os.environ)
    for k, v in PY_ENV.items():
        if k == "PYTHONHASHSEED" and "VERIF_HASHSEED" in e:
            v = e["VERIF_HASHSEED"]
        e[k] = v
    e["PYTHONPATH"] = REPO + os.pathsep + VERIF
    e["HOME"] = e.get("HOME", "/root")
    return e


def _read(path):
    out = []
    try:
        for line in open(path):
            try:
                out.append(json.loads(line))
            except ValueError:
                pass
    except OSError:
        pass
    return out


def main_check(pid, tier, seed, nworkers=None, seconds=None, runs=None, logs=None):
    n = nworkers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 4)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-run-")
    procs, paths = [], []
    try:
        for k in range(n):
            p = os.path.join(tmp, "w%d.jsonl" % k)
            paths.append(p)
            procs.append(subprocess.Popen(
                [sys.executable, "-B", os.path.join(VERIF, "check.py"), "--worker", pid, tier, str(seed),
                 str(k), str(n), str(seconds or 0), str(runs or 0), p],
                env=dict(child_env(), TMPDIR=tmp), stdout=subprocess.DEVNULL, stderr=open(os.path.join(tmp, "e%d" % k), "w"),
                start_new_session=True))
        prop_mod = _light(pid)                           # slow import; the workers are doing the same meanwhile
        cfg = prop_mod.thorough if tier == "thorough" else prop_mod.quick
        seconds = seconds or cfg["seconds"]
        deadline = t0 + seconds + 260
        first_viol = None
        while True:
            alive = [p for p in procs if p.poll() is None]
            if not alive:
                break
            msgs = [m for p in paths for m in _read(p) if m["t"] in ("viol", "error")]
            if any(m["t"] == "viol" and m.get("final") for m in msgs):
                break
            if first_viol is None and any(m["t"] == "viol" for m in msgs):
                first_viol = time.time()
            if first_viol and time.time() - first_viol > 75:
                break
            if time.time() > deadline:
                break
            time.sleep(0.15)
        hung = [k for k, p in enumerate(procs) if p.poll() is None]
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        allmsgs = [m for p in paths for m in _read(p)]
        viols = [m for m in allmsgs if m["t"] == "viol"]
        errors = [m for m in allmsgs if m["t"] == "error"]
        timeouts = [m for m in allmsgs if m["t"] == "timeout"]
        dones = [m for m in allmsgs if m["t"] == "done"]
        if logs is not None:
            logs.extend(m for m in allmsgs if m["t"] == "log")
        errtxt = ""
        for k in range(n):
            s = open(os.path.join(tmp, "e%d" % k)).read()
            s = "\n".join(x for x in s.split("\n") if "nanobind" not in x and not x.startswith(" - "))
            if s.strip():
                errtxt += s[-1500:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    wall = time.time() - t0
    known = load_known(pid)
    agg = {"runs": 0, "nontrivial": 0, "instants": 0, "counts": {}, "known": {}}
    states, samples = set(), []
    for d in dones:
        a = d["agg"]
        for c in ("runs", "nontrivial", "instants"):
            agg[c] += a[c]
        for c, v in a["counts"].items():
            agg["counts"][c] = agg["counts"].get(c, 0) + v
        for c, v in a["known"].items():
            agg["known"][c] = agg["known"].get(c, 0) + v
        states.update(d["states"])
        samples.extend(d["samples"])
    for sig, what in known.items():
        print("KNOWN-FINDING: property=%s sig=%s %s (seen in %d runs)" % (pid, sig, what, agg["known"].get(sig, 0)))

    rc = 0
    if viols:
        v = [m for m in viols if m.get("final")] or viols
        v = sorted(v, key=lambda m: m["i"])[0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha1(json.dumps(v["spec"], sort_keys=True).encode()).hexdigest()[:10]))
        rec = {"property": pid, "seed": seed, "tier": tier, "run": v["i"], "sig": v["sig"], "msg": v["msg"],
               "spec": v["spec"], "original_spec": v["orig"], "shrink_attempts": v.get("shrinks", 0), "log": v.get("log", [])}
        json.dump(rec, open(path, "w"), indent=1)
        ok = replay_file(path, quiet=True)
        if not ok and v["spec"] != v["orig"]:
            rec["spec"] = v["orig"]
            json.dump(rec, open(path, "w"), indent=1)
            ok = replay_file(path, quiet=True)
        print("seed=%s run=%s sig=%s" % (seed, v["i"], v["sig"]))
        print(v["msg"])
        print("replay in a fresh process: %s" % ("reproduced" if ok else "NOT reproduced (the code under test behaved differently)"))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    elif errors or (hung and not dones) or not dones:
        for e in errors[:2]:
            sys.stderr.write("HARNESS ERROR (%s)\n%s\n%s\n" % (e.get("where"), e.get("tb"), json.dumps(e.get("spec"))[:1500]))
        sys.stderr.write("workers hung: %s\n%s\n" % (hung, errtxt[-3000:]))
        rc = 2
    if timeouts and rc == 0:
        sys.stderr.write("note: %d runs hit the wall limit and were dropped\n" % len(timeouts))
    write_evidence(prop_mod, pid, tier, seed, agg, states, samples, wall, n, rc, len(viols), dones)
    if rc == 0:
        print("OK property=%s runs=%d distinct=%d instants=%d wall=%.1fs" % (pid, agg["runs"], len(states), agg["instants"], wall))
    return rc


def _light(pid):
    """The property's class attributes (its module is imported, its setup is not run)."""
    return get_prop(pid)


def write_evidence(prop, pid, tier, seed, agg, states, samples, wall, n, rc, nviol, dones):
    faults = {k[6:]: v for k, v in sorted(agg["counts"].items()) if k.startswith("fault:")}
    probes = {k: v for k, v in sorted(agg["counts"].items()) if not k.startswith("fault:")}
    search = max([d["wall"] for d in dones], default=wall) or 1e-9
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(states),
        "rule": prop.rule,
        "samples": samples[:4],
        "nontrivial_runs": agg["nontrivial"],
        "runs_per_hour": int(agg["runs"] / search * 3600),
        "simulated_time_instants": agg["instants"],
        "faults_injected": faults,
        "probes": probes,
        "distinct_measure": "distinct hashes of (schedule taken, faults fired, operations) over runs counted non-trivial",
        "components_real": prop.real,
        "components_stubbed": prop.stubs,
        "workers": n,
        "known_finding_hits": agg["known"],
    }
    ev = {"property": pid, "tier": tier, "seed": int(seed), "level": prop.level, "coverage": cov,
          "assumptions": prop.assumptions, "wall_s": round(wall, 2), "violations": 1 if nviol else 0}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % pid)
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))


def replay_file(path, quiet=False):
    """Re-run a replay file in a fresh interpreter; True if the same violation shows."""
    p = subprocess.run([sys.executable, "-B", os.path.join(VERIF, "check.py"), "--replay-inner", path],
                       env=child_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if not quiet:
        sys.stdout.write(p.stdout)
        sys.stderr.write(p.stderr[-3000:])
    return p.returncode == 1


def replay_inner(path):
    path = os.path.abspath(path)
    rec = json.load(open(path))
    scratch = _isolate_cwd()
    os.environ["VERIF_SCRATCH"] = scratch
    try:
        prop = get_prop(rec["property"])
        prop.setup()
        try:
            o = guarded_run(prop, json.loads(json.dumps(rec["spec"])))
        except _RunTimeout:
            print("sig=no-progress\nVIOLATION property=%s replay=%s" % (rec["property"], path))
            return 1
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    for line in o.log[:200]:
        print("  " + line)
    if o.viol:
        print("sig=%s\n%s" % (o.viol["sig"], o.viol["msg"]))
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        return 1 if o.viol["sig"] == rec["sig"] else 4
    print("no violation")
    return 0
