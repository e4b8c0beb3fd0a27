"""Thread schedules: the same calls as in the sequential world, but made by
several simulated threads whose every source line is a scheduling point
(C01-C05)."""
import copy
import pickle

import joblib
import cloudpickle
import numpy as np
from joblib.parallel import ParallelBackendBase, register_parallel_backend
from sklearn.base import clone
from sklearn.model_selection import GridSearchCV, cross_validate
from sklearn.preprocessing import StandardScaler

import skada
from skada import make_da_pipeline
from skada import model_selection as MS
from sim.engine import HarnessError, Recording, gen_sched, make_decider

from . import extras as X
from . import hist as H
from .common import (ENGINE, EXCS, InjectedError, Out, Prop, Raised, W, brief, digest, forked, outcome, outcome_all,
                     params_view, pick_instant, raise_at, rng, same, subseed)

REAL = ["skada (all of skada/*.py)", "scikit-learn", "POT", "numpy", "scipy", "CPython threads (one runs at a time)"]
STUBS = ["thread scheduler: the simulator decides at every source line (or bytecode) of skada which thread runs",
         "StubClassifier/StubRegressor as one of the base estimators"]
ASSUME = ["calls from skada into numpy, scipy, POT and scikit-learn are atomic", "BLAS and OpenMP run one thread",
          "every simulated thread enables scikit-learn's metadata routing, which is a per-thread setting there"]


def init_thread():
    """Threads start as the user's threads do: nothing is configured for them."""


def run_schedule(fns, sched, est, out, hook=None):
    """Run fns under the described schedule -> (results, trace description)."""
    dec = Recording(make_decider(sched, len(fns), rng, max(est, 1)))
    grain = sched.get("grain", "line")
    tasks = ENGINE.run_tasks(fns, dec, grain=grain, init=init_thread, hook=hook,
                             budget=200000 + 400 * max(est, 1), wall=50)
    out.instants += ENGINE.n
    out.hit("switches", len(ENGINE.switches))
    out.hit("sched:" + sched["kind"])
    trace = {"kind": "trace", "first": dec.first_tid, "switches": [list(s) for s in ENGINE.switches]}
    if "grain" in sched:
        trace["grain"] = sched["grain"]
    res = []
    for t in tasks:
        if t.exc is not None:
            if not isinstance(t.exc, Exception) and not hook:
                raise t.exc
            res.append(Raised(t.exc))
        else:
            res.append(t.result)
    return res, trace


def gen_grained(r):
    s = gen_sched(r)
    if r.random() < 0.15:
        s["grain"] = "instruction"
    return s


def alone(fn, seed, tag):
    """fn's outcome and instants when made alone from the state there is now."""
    def go():
        W.seed_globals(subseed(seed, tag))
        v, exc, n, _ = ENGINE.run_single(fn)
        if exc is not None:
            if not isinstance(exc, Exception):
                raise exc
            v = Raised(exc)
        return v, n
    return forked(go)


def shrink_trace(sched):
    """Fewer context switches."""
    if sched["kind"] != "trace":
        return
    sw = sched["switches"]
    mid = [i for i, s in enumerate(sw) if s[0] >= 0]
    k = max(1, len(mid) // 2)
    while mid and k >= 1:
        for a in range(0, len(mid), k):
            drop = set(mid[a:a + k])
            yield dict(sched, switches=[s for i, s in enumerate(sw) if i not in drop])
        if k == 1:
            break
        k //= 2


class ConcProp(Prop):
    real, stubs, assumptions = REAL, STUBS, ASSUME
    quick = {"seconds": 38, "runs": 200000}
    lists = ("calls",)
    min_list = 1

    def setup(self):
        W.setup_process()

    def shrink(self, spec):
        for l in self.lists:
            for i in range(len(spec[l])):
                if len(spec[l]) > self.min_list:
                    s = dict(spec)
                    s[l] = spec[l][:i] + spec[l][i + 1:]
                    yield s
        for s in shrink_trace(spec["sched"]):
            yield dict(spec, sched=s)
        if "obj" in spec:
            for o in W.shrink_object(spec["obj"]):
                yield dict(spec, obj=o)
        for i, d in enumerate(spec.get("data", [])):
            for d2 in W.shrink_data(d):
                yield dict(spec, data=spec["data"][:i] + [d2] + spec["data"][i + 1:])

    def violate(self, out, spec, trace, sig, msg):
        out.fail(sig, msg)
        out.viol["trace_spec"] = dict(spec, sched=trace)


# ------------------------------------------------------------------ C01 ----
class C01(ConcProp):
    pid = "C01"
    rule = "a run counts when the object was fitted, at least two calls ran concurrently and at least one context switch fell inside a call; distinct = (object, calls, switch points)"

    def gen(self, r, tier):
        sp, tk = W.gen_object(r, only=lambda s: not H.uses_global_rng(s))
        ds = H.gen_dataset_family(r, sp, tk, 1)
        ss = dict(ds[0], seed=r.randrange(1 << 30))
        ss.pop("masked", None)
        data = ds + [H.as_test(ds[0], r), ss]
        calls = []
        same_op = r.random() < 0.4
        op0 = r.choice(["predict", "predict_proba", "decision_function", "score", "transform", "weights"])
        for i in range(r.choice([2, 2, 2, 3, 4])):
            calls.append({"op": op0 if same_op else r.choice(H.OPS[3:]), "d": r.randrange(3), "tonly": r.random() < 0.3})
        return {"obj": sp, "task": tk, "data": data, "calls": calls, "how": r.choice(["fit", "fit_transform"]),
                "sched": gen_grained(r), "seed": r.randrange(1 << 30)}

    def run(self, spec):
        out = Out()
        sp = spec["obj"]
        est = W.build(sp)
        W.seed_globals(subseed(spec["seed"], "fit"))
        v = outcome(lambda: W.do_fit(est, sp, W.make_data(spec["data"][0]), spec["how"]))
        if isinstance(v, Raised):
            out.hit("fit_failed")
            return out
        Ds = [W.make_data(d) for d in spec["data"]]
        avail = W.ops_for(est, sp)
        if not avail:
            return out
        fns, names, refs, n = [], [], [], 0
        for c in spec["calls"]:
            op = c["op"] if c["op"] in avail else avail[H.hash_small(c["op"]) % len(avail)]
            i = 0 if op == "weights" else c["d"] % len(Ds)
            to = bool(c["tonly"]) and op != "weights"
            fns.append(lambda op=op, i=i, to=to: W.do_op(est, sp, op, Ds[i], to))
            names.append("%s(data %d%s)" % (op, i, ", target only" if to else ""))
            out.hit("op:" + op)
        for j, f in enumerate(fns):
            v, k = alone(f, spec["seed"], "call")
            refs.append(v)
            n += k
        W.seed_globals(subseed(spec["seed"], "call"))
        res, trace = run_schedule(fns, spec["sched"], n, out)
        inner = sum(1 for s in trace["switches"] if s[0] >= 0)
        out.nontrivial = len(fns) > 1 and inner > 0
        out.note("calls", names, "schedule", trace["first"], trace["switches"][:40])
        out.state = digest([sp, names, trace, spec["data"]])
        for j, (a, b) in enumerate(zip(res, refs)):
            d = same(a, b)
            if d:
                self.violate(out, spec, trace, self.sig(spec, names[j].split("(")[0]),
                             "%s: %s, made concurrently with %s, returned something else than alone: %s\nswitches: %s"
                             % (W.obj_name(sp), names[j], [m for k, m in enumerate(names) if k != j], d, trace["switches"][:30]))
                return out
        for j, f in enumerate(fns):
            W.seed_globals(subseed(spec["seed"], "call"))
            d = same(outcome(f), refs[j])
            if d:
                self.violate(out, spec, trace, self.sig(spec, "afterwards"),
                             "%s: after the concurrent calls %s, %s returns something else than before: %s" % (W.obj_name(sp), names, names[j], d))
                return out
        return out

    def sig(self, spec, what):
        return H.HistProp.sig(self, spec, what)


# ------------------------------------------------------------------ C02 ----
class C02(ConcProp):
    pid = "C02"
    rule = "a run counts when at least two scoring calls on one scorer overlapped (a context switch fell inside a call); distinct = (scorer, pipelines, data, switch points)"
    needs_torch = True

    def setup(self):
        W.setup_process()
        from . import deepzoo
        deepzoo.warm()
        ENGINE.install()

    def gen(self, r, tier):
        base = W.gen_data(r, "bin", multi_ok=False)
        base.pop("masked", None)
        base["scale"] = 1.0
        base["d"] = max(2, base["d"])
        name = r.choice(sorted(X.scorers()))
        calls, data = [], []
        for i in range(r.choice([2, 2, 3, 4])):
            d = dict(base, seed=r.randrange(1 << 30))
            if r.random() < 0.4:
                d["ns"], d["nt"] = r.choice([(12, 16), (17, 12), (24, 23)])
            else:
                d["ns"], d["nt"] = max(12, d["ns"]), max(12, d["nt"])
            if r.random() < 0.35:
                d["labels"] = r.choice([[3, 7], [10, 20], [1, 0], [0, 5]])
            data.append(d)
            kinds = ["plain", "coral", "reweight", "ot", "stub"]
            if name in ("MaNoScorer", "DeepEmbeddedValidation", "PredictionEntropyScorer", "SoftNeighborhoodDensity") and r.random() < 0.25:
                kinds = ["deep"]
            calls.append({"est": r.choice(kinds), "d": i, "shared": i > 0 and r.random() < 0.25})
        return {"scorer": name, "opt": r.randrange(4), "data": data, "calls": calls, "sched": gen_grained(r), "seed": r.randrange(1 << 30)}

    def build_scorer(self, spec):
        return X.scorer_with(spec["scorer"], spec["opt"], spec["seed"] % 100)

    def run(self, spec):
        out = Out()
        sc = self.build_scorer(spec)
        ests, fns, names, Ds, n, refs = [], [], [], [], 0, []
        for j, c in enumerate(spec["calls"]):
            dspec = spec["data"][c["d"] % len(spec["data"])]
            D = W.make_data(dspec)
            if dspec.get("labels") and c["est"] not in ("deep", "stub"):
                D["y"] = np.array(dspec["labels"])[D["y"]]
            if c["shared"] and ests and ests[0][1] == c["est"] and dspec["d"] == spec["data"][0]["d"]:
                est = ests[0][0]
            elif c["est"] == "deep":
                from . import deepzoo
                est = deepzoo.scoring_net(dspec["d"], spec["seed"] % 97 + j)
                D = {k: (v.astype(np.float32) if k == "X" else v) for k, v in D.items()}
                est.fit(D["X"], D["y"].copy(), sample_domain=D["sd"])
            else:
                est = X.scoring_pipe(c["est"])
                est.fit(D["X"], D["y"].copy(), sample_domain=D["sd"])
            ests.append((est, c["est"]))
            Ds.append(D)
            y = D["y"].copy()
            if spec["scorer"] == "CircularValidation":
                y[D["sd"] < 0] = -1
            kw = X.score_kwargs(spec["scorer"], D)
            fns.append(lambda est=est, D=D, y=y, kw=kw: sc(est, D["X"], y, **kw))
            names.append("%s on %s" % (spec["scorer"], c["est"]))
        def state(e, k):
            return params_view(e) if k != "deep" else [(a, b.detach().numpy().copy()) for a, b in e.module_.state_dict().items()]
        before = digest([state(e, k) for e, k in ests])
        for f in fns:
            v, k = alone(f, spec["seed"], "score")
            refs.append(v)
            n += k
        looks = [outcome(lambda: e.predict(D["X"], sample_domain=D["sd"], allow_source=True)) for (e, _), D in zip(ests, Ds)]
        W.seed_globals(subseed(spec["seed"], "score"))
        res, trace = run_schedule(fns, spec["sched"], n, out)
        inner = sum(1 for s in trace["switches"] if s[0] >= 0)
        out.nontrivial = len(fns) > 1 and inner > 0
        out.hit("scorer:" + spec["scorer"])
        out.note(names, "schedule", trace["first"], trace["switches"][:40])
        out.state = digest([spec["scorer"], spec["opt"], names, trace, spec["data"]])
        if any(isinstance(x, Raised) for x in refs):
            out.hit("reference_raised")
        for j, (a, b) in enumerate(zip(res, refs)):
            d = same(a, b)
            if d:
                self.violate(out, spec, trace, "C02:%s" % spec["scorer"],
                             "%s: call %d (on %s), made concurrently with %d other calls of the same scorer, returned %s, alone %s (%s)"
                             % (spec["scorer"], j, names[j], len(fns) - 1, brief(a), brief(b), d))
                return out
        for j, f in enumerate(fns):
            W.seed_globals(subseed(spec["seed"], "score"))
            d = same(outcome(f), refs[j])
            if d:
                self.violate(out, spec, trace, "C02:%s:afterwards" % spec["scorer"],
                             "%s: after concurrent scoring, call %d returns something else than before: %s" % (spec["scorer"], j, d))
                return out
        after = [outcome(lambda: e.predict(D["X"], sample_domain=D["sd"], allow_source=True)) for (e, _), D in zip(ests, Ds)]
        d = same(after, looks)
        if d or digest([state(e, k) for e, k in ests]) != before:
            self.violate(out, spec, trace, "C02:%s:estimator" % spec["scorer"], "%s: scoring changed the scored estimator: %s" % (spec["scorer"], d))
        return out


# ------------------------------------------------------------------ C03 ----
class SimBackend(ParallelBackendBase):
    """A joblib backend whose workers are simulated: `n_jobs` tasks take batches
    from one queue, and the simulator decides every interleaving."""
    supports_retrieve_callback = False
    supports_timeout = False
    uses_threads = True
    supports_sharedmem = True
    plan = None

    def effective_n_jobs(self, n_jobs):
        return 1 if n_jobs is None else max(1, SimBackend.plan["n"])

    def configure(self, n_jobs=1, parallel=None, **kw):
        self.parallel = parallel
        self.jobs = []
        return self.effective_n_jobs(n_jobs)

    def compute_batch_size(self):
        return SimBackend.plan["batch"]

    def apply_async(self, func, callback=None):
        job = _Job(self, func, callback)
        self.jobs.append(job)
        return job

    submit = apply_async

    def terminate(self):
        pass

    def abort_everything(self, ensure_ready=True):
        self.jobs = []

    def run_all(self):
        plan = SimBackend.plan
        queue = list(self.jobs)
        self.jobs = []
        order = list(range(len(queue)))
        if plan["shuffle"]:
            rng("queue", plan["sched"]["seed"] if "seed" in plan["sched"] else 0).shuffle(order)
        todo = [queue[i] for i in order]

        def work():
            while True:
                ENGINE.point("worker.next")
                if not todo:
                    return
                job = todo.pop(0)
                job.run(plan["iso"])
        res, trace = run_schedule([work for _ in range(plan["n"])], plan["sched"], plan["est"], plan["out"])
        plan["trace"] = trace
        for v in res:
            if isinstance(v, Raised):
                raise HarnessError("simulated worker died: %r" % v)
        for job in queue:
            if job.callback is not None:
                job.callback(job)


class _Job:
    def __init__(self, backend, func, callback):
        self.backend, self.func, self.callback, self.done = backend, func, callback, False
        self.val = self.exc = None

    def run(self, iso):
        try:
            f = self.func
            if iso:
                # another process: a private copy of everything, with the
                # arrays mapped read-only as joblib does
                f = _readonly(cloudpickle.loads(cloudpickle.dumps(f)))
            self.val = f()
            if iso:
                self.val = cloudpickle.loads(cloudpickle.dumps(self.val))
        except Exception as e:                           # noqa: BLE001
            self.exc = e
        self.done = True

    def get(self, timeout=None):
        if not self.done:
            self.backend.run_all()
        if self.exc is not None:
            raise self.exc
        return self.val


def _readonly(batched):
    for fn, args, kw in batched.items:
        for a in list(args) + list(kw.values()):
            _freeze(a)
    return batched


def _freeze(a):
    if isinstance(a, np.ndarray):
        a.flags.writeable = False
    elif isinstance(a, dict):
        for v in a.values():
            _freeze(v)
    elif isinstance(a, (list, tuple)):
        for v in a:
            _freeze(v)


class FoldBomb(W.StubClassifier):
    """Fails to fit on some folds or for one parameter value, deterministically."""

    def __init__(self, tag="stub", smooth=1.0, mod=0):
        super().__init__(tag, smooth)
        self.mod = mod

    def fit(self, X, y, sample_weight=None):
        if self.tag == "boom" or (self.mod and int(abs(np.asarray(X, dtype=float)).sum() * 1000) % self.mod == 0):
            raise InjectedError("worker's collaborator failed")
        return super().fit(X, y, sample_weight)


class C03(ConcProp):
    pid = "C03"
    rule = "a run counts when at least two worker tasks overlapped (a context switch inside a task); distinct = (pipeline, splitter, scorers, workers, switch points)"
    lists = ("scoring",)

    def setup(self):
        W.setup_process()
        register_parallel_backend("sim", SimBackend)

    def gen(self, r, tier):
        multi = r.random() < 0.3
        d = W.gen_data(r, "bin", multi_ok=multi)
        d.pop("masked", None)
        d.update(ns=r.choice([16, 20]), nt=r.choice([16, 21]), scale=r.choice([0.5, 1.0]))
        names = sorted(X.scorers())
        names.remove("CircularValidation")
        sc = r.sample(names, r.choice([1, 1, 2, 3]))
        mode = r.choice(["cv", "cv", "grid"])
        return {"mode": mode, "pipe": r.choice(["plain", "coral", "reweight", "ot", "labelprop", "bomb", "perdomain", "sourceonly", "sub", "dasvm", "kliep", "nested"]),
                "cv": r.choice(["SourceTargetShuffleSplit", "DomainShuffleSplit", "StratifiedDomainShuffleSplit", "LeaveOneDomainOut"]),
                "ncv": r.choice([2, 3, 4]), "cvseed": r.randrange(50), "scoring": sc, "shared_cv": r.random() < 0.5,
                "mod": r.choice([0, 2, 3]), "grid": r.choice([[0.1, 1.0], [0.1, 1.0, 5.0]]),
                "n": r.choice([2, 2, 3, 4]), "batch": r.choice([1, 1, 2]), "iso": r.random() < 0.3, "shuffle": r.random() < 0.5,
                "extra": {k: r.random() < 0.4 for k in ("train", "est", "idx")},
                "data": [d], "sched": gen_grained(r), "seed": r.randrange(1 << 30)}

    def pipe(self, spec):
        k = spec["pipe"]
        if k == "bomb":
            return make_da_pipeline(StandardScaler(), FoldBomb(mod=spec["mod"]).set_fit_request(sample_weight=True))
        if k == "perdomain":
            return make_da_pipeline(skada.PerDomain(StandardScaler()), skada.Shared(X.weighted_lr()))
        if k == "sourceonly":
            return make_da_pipeline(StandardScaler(), skada.SelectSource(X.weighted_lr()))
        if k == "sub":
            return make_da_pipeline(skada.SubspaceAlignmentAdapter(n_components=1, random_state=0), X.weighted_lr())
        if k == "kliep":
            return make_da_pipeline(skada.KLIEPReweightAdapter(gamma=[0.1, 1.0], cv=3, max_iter=30, random_state=0), X.weighted_lr())
        if k == "nested":
            return make_da_pipeline(make_da_pipeline(StandardScaler(), skada.CORALAdapter()), X.weighted_lr())
        if k == "dasvm":
            from sklearn.svm import SVC
            return make_da_pipeline(skada.DASVMClassifier(base_estimator=SVC(kernel="linear", random_state=0), max_iter=2, k=2))
        return X.scoring_pipe(k)

    def grid_param(self, est, values):
        for p in sorted(est.get_params()):
            if p.endswith("__C") or p.endswith("__smooth"):
                return {p: list(values)}
        ks = [p for p in sorted(est.get_params()) if p.endswith("__reg")]
        if ks:
            return {ks[0]: list(values)}
        return {}

    def go(self, spec, D, n_jobs):
        est = self.pipe(spec)
        sd = X.lodo_labels(D["sd"]) if spec["cv"] == "LeaveOneDomainOut" else D["sd"]
        cv = X.splitters()[spec["cv"]](spec["cvseed"], spec["ncv"])
        params = {"sample_domain": sd}
        sc = {}
        for n in spec["scoring"]:
            sc[n] = X.scorers()[n](7)
            if n == "SupervisedScorer":
                params["target_labels"] = D["y_true"]
        y = D["y"].copy()
        if spec["mode"] == "cv":
            res = cross_validate(est, D["X"], y, cv=cv, params=params, scoring=sc, n_jobs=n_jobs, error_score=np.nan,
                                 return_train_score=spec["extra"]["train"], return_estimator=spec["extra"]["est"],
                                 return_indices=spec["extra"]["idx"])
            ests = res.pop("estimator", [])
            out = {k: v for k, v in res.items() if not k.endswith("_time")}
            out["fitted"] = [outcome(lambda: e.predict(D["X"], sample_domain=sd, allow_source=True)) for e in ests]
            return out
        grid = self.grid_param(est, spec["grid"])
        if spec["pipe"] == "bomb":
            grid = dict(grid, **{[p for p in est.get_params() if p.endswith("__tag")][0]: ["stub", "boom"]})
        first = spec["scoring"][0]
        gs = GridSearchCV(est, grid, cv=cv, scoring=sc, refit=first, n_jobs=n_jobs, error_score=np.nan)
        gs.fit(D["X"], y, **params)
        out = {k: v for k, v in gs.cv_results_.items() if "_time" not in k}
        out = {k: (np.asarray(v) if not isinstance(v, list) else [str(x) for x in v]) for k, v in out.items()}
        out = {k: (np.array([str(x) for x in v]) if getattr(v, "dtype", None) == object else v) for k, v in out.items()}
        out["best"] = str(gs.best_params_)
        out["pred"] = outcome(lambda: gs.best_estimator_.predict(D["X"], sample_domain=sd, allow_source=True))
        return out

    def run(self, spec):
        out = Out()
        D = W.make_data(spec["data"][0])

        def seq():
            W.seed_globals(subseed(spec["seed"], "cv"))
            v, exc, n, _ = ENGINE.run_single(lambda: self.go(spec, W.make_data(spec["data"][0]), None))
            return (Raised(exc) if exc is not None else v), n
        ref, n = forked(seq)
        plan = {k: spec[k] for k in ("n", "batch", "iso", "shuffle", "sched")}
        plan.update(est=n, out=out, trace=None)
        SimBackend.plan = plan
        W.seed_globals(subseed(spec["seed"], "cv"))
        with joblib.parallel_backend("sim"):
            v = outcome(lambda: joblib_all(lambda: self.go(spec, D, plan["n"])))
        trace = plan["trace"]
        if trace is None:
            if not isinstance(v, Raised) and not isinstance(ref, Raised):
                raise HarnessError("the simulated backend was not used")
            trace = {"kind": "trace", "first": 0, "switches": []}
        out.nontrivial = sum(1 for s in trace["switches"] if s[0] >= 0) > 0
        out.hit("mode:" + spec["mode"])
        out.hit("worker_isolation:%s" % spec["iso"])
        if spec["pipe"] == "bomb":
            out.hit("fault:worker_fit_failure")
        if isinstance(ref, Raised):
            out.hit("reference_raised")
        desc = "%s of %s with %s, %s, %d workers%s" % (spec["mode"], spec["pipe"], spec["cv"], spec["scoring"], spec["n"], " (separate processes)" if spec["iso"] else "")
        out.note(desc, "->", brief(v, 80), trace["first"], trace["switches"][:40])
        out.state = digest([{k: spec[k] for k in spec if k not in ("sched", "_run")}, trace])
        d = same(v, ref)
        if d:
            self.violate(out, spec, trace, "C03:%s:%s" % (spec["mode"], spec["pipe"]), "%s: parallel result differs from the sequential one: %s" % (desc, d))
        return out


def joblib_all(fn):
    """Make joblib hand every task to the simulated workers before collecting."""
    orig = joblib.parallel.Parallel.__init__

    def init(self, *a, **kw):
        kw["pre_dispatch"] = "all"
        orig(self, *a, **kw)
    joblib.parallel.Parallel.__init__ = init
    try:
        return fn()
    finally:
        joblib.parallel.Parallel.__init__ = orig


# ------------------------------------------------------------------ C04 ----
class C04(ConcProp):
    pid = "C04"
    rule = "a run counts when at least two objects were worked on concurrently with a context switch inside an operation; distinct = (objects, operations, switch points)"
    lists = ("parts",)

    def gen(self, r, tier):
        sp, tk = W.gen_object(r, only=lambda s: not H.uses_global_rng(s))
        share = r.choice(["none", "none", "clone", "clone_fitted", "arrays", "supplied", "same_spec", "same_spec"])
        parts = []
        for i in range(r.choice([2, 2, 2, 3, 4])):
            p = {"obj": sp, "d": i, "ops": [r.choice(H.OPS[3:]) for _ in range(r.choice([0, 1, 2]))], "how": r.choice(["fit", "fit", "fit_transform"]),
                 "td": r.random() < 0.5, "refit": r.random() < 0.15}
            if share == "none" and i and r.random() < 0.7:
                p["obj"], _ = W.gen_object(r, task=tk, only=lambda s: not H.uses_global_rng(s))
            if share == "same_spec" and r.random() < 0.4:
                alt = H.H02.variant(r, sp)
                if alt:
                    p["obj"] = alt
            parts.append(p)
        multi = all(W.obj_multi_ok(p["obj"]) for p in parts)
        base = W.gen_data(r, tk, multi_ok=multi)
        if any(W.needs_target_labels(p["obj"]) for p in parts):
            base.pop("masked", None)
        data = []
        for p in parts:
            d = dict(base, seed=r.randrange(1 << 30))
            if r.random() < 0.3:
                d["ns"], d["nt"] = r.choice([(12, 16), (17, 7), (24, 23)])
            data.append(d)
        spec = {"parts": parts, "share": share, "task": tk, "data": data, "sched": gen_grained(r), "seed": r.randrange(1 << 30),
                "watch": r.choice([0, 0, 20, 100, 300])}
        if spec["watch"] == 300:
            spec["sched"] = {"kind": "random", "seed": r.randrange(1 << 30), "p": r.choice([0.01, 0.03, 0.1])}
        return spec

    def build(self, spec):
        parts, share = spec["parts"], spec["share"]
        if share in ("clone", "clone_fitted"):
            proto = W.build(parts[0]["obj"])
            if share == "clone_fitted":
                W.seed_globals(1)
                outcome(lambda: W.do_fit(proto, parts[0]["obj"], W.make_data(spec["data"][-1]), "fit"))
            return [(clone(proto), parts[0]["obj"]) for _ in parts]
        if share == "supplied":
            first = W.build(parts[0]["obj"])
            subs = H.supplied(first)
            outl = [(first, parts[0]["obj"])]
            for p in parts[1:]:
                e = W.build(parts[0]["obj"])
                for k, v in shallow_supplied(first).items():
                    e.set_params(**{k: v})
                outl.append((e, parts[0]["obj"]))
            return outl
        return [(W.build(p["obj"]), p["obj"]) for p in parts]

    def run(self, spec):
        out = Out()
        parts = spec["parts"]
        objs = self.build(spec)
        arrays = [W.make_data(spec["data"][p["d"] % len(spec["data"])]) for p in parts]
        if spec["share"] == "arrays":
            arrays = [arrays[0]] * len(parts)
        tests = [W.make_data(dict(spec["data"][p["d"] % len(spec["data"])], seed=spec["seed"] % 1000 + i)) for i, p in enumerate(parts)]

        def job(i):
            est, sp = objs[i]
            p = parts[i]
            res = {"fit": outcome(lambda: W.do_fit(est, sp, arrays[i], p["how"]))}
            if isinstance(res["fit"], Raised):
                return res
            if p["refit"]:
                res["refit"] = outcome(lambda: W.do_fit(est, sp, arrays[i], p["how"]))
            avail = W.ops_for(est, sp)
            for j, op in enumerate(p["ops"]):
                if not avail:
                    break
                o = op if op in avail else avail[H.hash_small(op) % len(avail)]
                D = tests[i] if p["td"] and o != "weights" else arrays[i]
                res["%d.%s" % (j, o)] = outcome(lambda: W.do_op(est, sp, o, D, False))
            return res
        def bystander():
            """A thread that has nothing to do with the library looks at the
            settings of the process again and again."""
            seen = []
            for _ in range(spec["watch"]):
                ENGINE.point("bystander")
                v = H.process_settings()
                if v not in seen:
                    seen.append(v)
            return {"seen": seen}
        fns = [lambda i=i: job(i) for i in range(len(parts))]
        if spec.get("watch"):
            fns.append(bystander)
            objs = objs + [("bystander", None)]
        refs, n = [], 0
        for f in fns:
            v, k = alone(f, spec["seed"], "job")
            refs.append(v)
            n += k
        W.seed_globals(subseed(spec["seed"], "job"))
        res, trace = run_schedule(fns, spec["sched"], n, out)
        names = [W.obj_name(sp) if sp else "bystander" for _, sp in objs]
        out.hit("share:" + spec["share"])
        out.nontrivial = len(fns) > 1 and sum(1 for s in trace["switches"] if s[0] >= 0) > 0
        out.note(spec["share"], names, "schedule", trace["first"], trace["switches"][:40])
        out.state = digest([parts, spec["share"], trace, spec["data"]])
        for j, (a, b) in enumerate(zip(res, refs)):
            d = same(a, b)
            if d:
                self.violate(out, spec, trace, "C04:%s" % names[j],
                             "%s (object %d of %s, sharing: %s) gave something else concurrently than alone: %s\nswitches: %s"
                             % (names[j], j, names, spec["share"], d, trace["switches"][:30]))
                return out
        for j in range(len(fns)):
            est, sp = objs[j]
            if sp is None or isinstance(res[j].get("fit"), Raised):
                continue
            got, want = {}, {}
            for k in res[j]:
                if "." in k:
                    i, o = k.split(".", 1)
                    D = tests[j] if parts[j]["td"] and o != "weights" else arrays[j]
                    W.seed_globals(subseed(spec["seed"], "job"))
                    got[k] = outcome(lambda: W.do_op(est, sp, o, D, False))
                    want[k] = refs[j][k]
            d = same(got, want)
            if d:
                self.violate(out, spec, trace, "C04:%s:afterwards" % names[j],
                             "%s (object %d of %s, sharing: %s) answers differently after the others' work than alone: %s" % (names[j], j, names, spec["share"], d))
                return out
        return out

    def shrink(self, spec):
        yield from super().shrink(spec)
        for i, p in enumerate(spec["parts"]):
            for k in range(len(p["ops"])):
                yield dict(spec, parts=spec["parts"][:i] + [dict(p, ops=p["ops"][:k] + p["ops"][k + 1:])] + spec["parts"][i + 1:])
            if p["refit"]:
                yield dict(spec, parts=spec["parts"][:i] + [dict(p, refit=False)] + spec["parts"][i + 1:])


def shallow_supplied(est):
    """{param path: supplied estimator} for estimators the user hands in."""
    out = {}
    for k, v in est.get_params(deep=True).items():
        if "__" in k and hasattr(v, "get_params") and not k.split("__")[-1].startswith("steps"):
            if k.endswith("base_estimator") or k.endswith("domain_classifier") or k.endswith("weight_estimator") or k.endswith("ot_method"):
                out[k] = v
        elif "__" not in k and k in ("base_estimator", "domain_classifier", "weight_estimator", "ot_method") and hasattr(v, "get_params"):
            out[k] = v
    # the deepest ones only
    return {k: v for k, v in out.items() if not any(o != k and o.startswith(k + "__") for o in out)}


# ------------------------------------------------------------------ C05 ----
CV_VARIANTS = {
    "SourceTargetShuffleSplit": [dict(test_size=0.3), dict(train_size=0.5), dict(), dict(test_size=5)],
    "DomainShuffleSplit": [dict(test_size=0.3), dict(test_size=0.2, under_sampling=0.5), dict(under_sampling=0.0), dict()],
    "StratifiedDomainShuffleSplit": [dict(test_size=0.4), dict(test_size=0.3, train_size=0.5), dict()],
    "LeaveOneDomainOut": [dict(test_size=0.3), dict(), dict(train_size=0.4)],
}


class C05(ConcProp):
    pid = "C05"
    rule = "a run counts when at least two iterators of one splitter were open at the same time or one was abandoned or interrupted; distinct = (splitter, plan, schedule)"
    lists = ("its",)
    batch = 12

    def gen(self, r, tier):
        name = r.choice(sorted(CV_VARIANTS))
        d = W.gen_data(r, r.choice(["bin", "multi"]), multi_ok=True)
        d.pop("masked", None)
        d.update(ns=r.choice([16, 20, 24]), nt=r.choice([17, 23]))
        its = []
        for i in range(r.choice([2, 2, 3, 4])):
            its.append({"d": r.randrange(2), "take": r.choice([99, 99, 99, 1, 2]), "kind": r.choice(["iter", "iter", "iter", "n_splits", "fault"]),
                        "u": round(r.random(), 6), "v": round(r.random(), 6), "exc": r.choice(["interrupt", "nomem", "error"])})
        return {"cv": name, "var": r.randrange(len(CV_VARIANTS[name])), "n": r.choice([1, 2, 3, 5]), "rs": r.randrange(1000),
                "data": [d, dict(d, seed=r.randrange(1 << 30), ns=r.choice([16, 20, 24]))], "its": its, "threads": r.random() < 0.5,
                "order": [r.randrange(100) for _ in range(40)], "fresh": r.random() < 0.3, "np_int": r.random() < 0.2, "lk": r.choice([2, 3, 4]),
                "sched": gen_grained(r), "seed": r.randrange(1 << 30)}

    def make(self, spec):
        cls = getattr(MS, spec["cv"])
        rs = np.int64(spec["rs"]) if spec["np_int"] else spec["rs"]
        return cls(spec["n"], random_state=rs, **CV_VARIANTS[spec["cv"]][spec["var"] % len(CV_VARIANTS[spec["cv"]])])

    def args(self, spec, i):
        D = W.make_data(spec["data"][i])
        sd = X.lodo_labels(D["sd"], spec.get("lk", 2)) if spec["cv"] == "LeaveOneDomainOut" else D["sd"]
        return D["X"], D["y"], sd

    def full(self, cv, a):
        return outcome(lambda: [(np.array(t), np.array(s)) for t, s in cv.split(*a)])

    def run(self, spec):
        out = Out()
        A = [self.args(spec, i) for i in range(2)]
        refs, refn = [], []
        for i in range(2):
            np.random.seed(4)
            refs.append(self.full(self.make(spec), A[i]))
            refn.append(outcome(lambda: self.make(spec).get_n_splits(*A[i])))
        np.random.seed(subseed(spec["seed"], "g"))
        cv = self.make(spec)
        its = spec["its"]
        out.hit("cv:" + spec["cv"])
        got = [[] for _ in its]
        kept = [[] for _ in its]
        errs = [None] * len(its)

        def stepper(k):
            it = its[k]
            if it["kind"] == "n_splits":
                out_n.append((it["d"], outcome(lambda: cv.get_n_splits(*A[it["d"]]))))
                return
            a = A[it["d"]]
            if it["kind"] == "fault":
                return
            try:
                for j, (t, s) in enumerate(cv.split(*a)):
                    got[k].append((np.array(t), np.array(s)))
                    if it["take"] == 99:
                        kept[k].append((t, s))           # collected, as a parallel search does
                    # what is done with yielded arrays must not matter
                    if it["take"] != 99:
                        t[...] = 0
                    if j + 1 >= it["take"]:
                        break
                    yield
            except Exception as e:                       # noqa: BLE001
                errs[k] = Raised(e)
        out_n = []
        faults = [k for k, it in enumerate(its) if it["kind"] == "fault"]
        for k in faults:
            it = its[k]
            fn = (lambda it=it: list(cv.split(*A[it["d"]])))
            from .common import run_faulted
            v = run_faulted(fn, {"kind": it["exc"], "u": it["u"], "v": it["v"]}, out, "iterator %d" % k)
            if not isinstance(v, Raised):
                d = same([(np.array(t), np.array(s)) for t, s in v], refs[it["d"]])
                if d:
                    out.fail("C05:%s:swallowed" % spec["cv"], "%s: an iteration hit by a fault returned other splits: %s" % (spec["cv"], d))
                    return out
        trace = None
        if spec["threads"]:
            fns = [lambda k=k: [None for _ in stepper(k)] for k in range(len(its))]
            _, trace = run_schedule(fns, spec["sched"], 40 * len(fns), out)
            out.nontrivial = len(its) > 1 and sum(1 for s in trace["switches"] if s[0] >= 0) > 0
        else:
            live = {k: stepper(k) for k in range(len(its))}
            steps = 0
            while live:
                ks = sorted(live)
                k = ks[spec["order"][steps % len(spec["order"])] % len(ks)]
                steps += 1
                try:
                    next(live[k])
                except StopIteration:
                    del live[k]
                np.random.rand()
            out.nontrivial = len(its) > 1 or bool(faults)
        if spec["fresh"]:
            cv2 = clone_splitter(cv)
            got.append([])
            its = its + [{"d": 0, "take": 99, "kind": "iter"}]
            errs.append(None)
            v = self.full(cv2, A[0])
            if isinstance(v, Raised):
                errs[-1] = v
            else:
                got[-1] = v
        out.note(spec["cv"], spec["n"], its, (trace or {}).get("switches", spec["order"][:10]))
        out.state = digest([spec["cv"], spec["var"], spec["n"], spec["its"], spec["data"], trace or spec["order"]])
        for i, v in out_n:
            d = same(v, refn[i])
            if d:
                out.fail("C05:%s:n_splits" % spec["cv"], "%s: the number of splits reported depends on what else was iterated: %s" % (spec["cv"], d))
                return out
        for k, it in enumerate(its):
            if it["kind"] != "iter":
                continue
            ref = refs[it["d"]]
            if isinstance(ref, Raised):
                d = None if errs[k] is not None else "raised nothing, alone %r" % ref
            elif errs[k] is not None:
                d = "raised %r" % errs[k]
            else:
                d = same(got[k], ref[:it["take"]] if it["take"] != 99 else ref)
                if not d and k < len(kept) and it["take"] == 99:
                    d = same([(np.array(t), np.array(s)) for t, s in kept[k]], ref)
                    d = d and "after the iteration, the collected splits: " + d
            if d:
                sig = "C05:%s" % spec["cv"]
                msg = "%s(n_splits=%d, random_state=%d): iterator %d of %d, consumed %s, yields other splits than a lone iteration: %s" % (
                    spec["cv"], spec["n"], spec["rs"], k, len(its), "from concurrent threads" if spec["threads"] else "interleaved", d)
                if trace:
                    self.violate(out, spec, trace, sig, msg)
                else:
                    out.fail(sig, msg)
                return out
        return out

    def shrink(self, spec):
        yield from super().shrink(spec)
        if spec["n"] > 1:
            yield dict(spec, n=spec["n"] - 1)
        if spec["threads"]:
            yield dict(spec, threads=False)


def clone_splitter(cv):
    return pickle.loads(pickle.dumps(copy.deepcopy(cv)))
