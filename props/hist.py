"""Histories on one object: uses, failures and interrupts, compared with what a
fresh object in a fresh process does (H01-H07, H09)."""
import copy
import os
import pickle
import random
import warnings

import numpy as np

from .common import (ENGINE, EXCS, InjectedError, Out, Pristine, Prop, Raised, StepBudgetExceeded, W, brief, digest,
                     forked, gen_fault, loc_name, outcome, outcome_all, params_view, pick_instant, raise_at, rng,
                     run_faulted, same, subseed)
from . import extras as X

REAL = ["skada (all of skada/*.py)", "scikit-learn", "POT", "numpy", "scipy"]
STUBS = ["StubClassifier/StubRegressor as one of the base estimators (all others are real scikit-learn)",
         "synthetic data sets"]
ASSUME = ["one simulated process at a time; each run starts from a fork of a process that has only imported the library",
          "faults are raised before a Python source line of the library's own code, or by a simulated collaborator",
          "BLAS and OpenMP run one thread"]

OPS = ("fit", "fit", "fit_transform", "predict", "predict_proba", "decision_function", "score", "transform", "weights",
       "predict_log_proba")


def gen_dataset_family(r, sp, tk, k):
    """k data sets the same object could meet one after the other: mostly the
    same width, often the same shape with different values."""
    ds = []
    base = W.gen_data(r, tk, multi_ok=W.obj_multi_ok(sp))
    if W.needs_target_labels(sp):
        base.pop("masked", None)
    for i in range(k):
        d = dict(base, seed=r.randrange(1 << 30))
        if i and r.random() < 0.45:
            d["ns"] = r.choice([8, 12, 17, 24])
            d["nt"] = r.choice([7, 12, 16, 23])
            d["layout"] = r.choice(["block", "interleave", "tfirst"])
            d["scale"] = r.choice([0.5, 1.0, 3.0])
        if i and r.random() < 0.2:
            d["d"] = r.choice([2, 3, 4])
        if tk != "reg" and r.random() < 0.3:             # other class labels than the data set before
            d["lab"] = r.choice(["shift", "gap", "rev"])
        if i and tk != "reg" and r.random() < 0.25 and W.classes_may_vary(sp):       # more or fewer classes than before
            d["task"] = r.choice(["bin", "multi"])
        if i and r.random() < 0.3 and W.obj_multi_ok(sp):
            d["nsrc"] = r.choice([1, 2])
            d["ntgt"] = r.choice([1, 2])
        ds.append(d)
    if r.random() < (0.25 if W.has_sel(sp) else 0.02):   # samples of one domain, or one side, only
        side = r.choice(["nsrc", "nsrc", "ntgt"])
        for d in ds[r.randrange(len(ds)):]:
            d["ntgt" if side == "nsrc" else "nsrc"] = 0
            if side == "ntgt":
                d.pop("masked", None)
    W.vary_calls(r, sp, ds)
    return ds


def as_test(d, r):
    """Unseen data with the same domains as data set d."""
    t = dict(d, seed=r.randrange(1 << 30))
    if r.random() < 0.6:
        t["ns"], t["nt"] = r.choice([(5, 6), (9, 4), (6, 11)])
    t.pop("masked", None)
    return t


def gen_hist(r, n, nd, fault_p=0.35, ops=OPS):
    hist = []
    for _ in range(n):
        st = {"op": r.choice(ops), "d": r.randrange(nd)}
        if r.random() < 0.25:
            st["tonly"] = True
        f = gen_fault(r, fault_p)
        if f:
            st["fault"] = f
        hist.append(st)
    return hist


def step_fn(est, sp, st, D):
    op = st["op"]
    if op in ("fit", "fit_transform"):
        return lambda: W.do_fit(est, sp, D, op)
    if op not in W.ops_for(est, sp):
        op = (W.ops_for(est, sp) or [None])[0]
        if op is None:
            return lambda: None
    return lambda: W.do_op(est, sp, op, D, st.get("tonly", False) and op != "weights")


def do_step(est, sp, st, Ds, out, seed, i):
    W.seed_globals(subseed(seed, "step", i))
    fn = step_fn(est, sp, st, Ds[st["d"]])
    if st.get("fault"):
        v = run_faulted(fn, st["fault"], out, "step %d %s" % (i, st["op"]))
    else:
        v = outcome_all(fn, out)
        out.note("step", i, st["op"], "data", st["d"], "->", brief(v, 60) if isinstance(v, Raised) else "ok")
    out.hit("op:" + st["op"])
    return v


def observe(est, sp, train, tests, seed):
    """Everything a user can see of a fitted object, as outcomes."""
    res = {}
    for name, D, to in [("train", train, False)] + [("test%d" % i, t, i % 2 == 1) for i, t in enumerate(tests)]:
        for op in W.ops_for(est, sp):
            if op == "weights" and (to or name != "train"):
                continue
            W.seed_globals(subseed(seed, name, op))
            res["%s.%s" % (name, op)] = outcome(lambda: W.do_op(est, sp, op, D, to))
    return res


def fitted_attributes(est):
    """The public record of what was learnt: plain values, arrays and lists in attributes ending in `_`
    (DASVMClassifier documents three lists without)."""
    plain = (np.ndarray, float, int, str, np.generic)

    def view(v):
        if isinstance(v, (list, tuple)):
            return [view(x) for x in v]
        if isinstance(v, plain):
            return v
        return [type(v).__name__, fitted_attributes(v) if hasattr(v, "get_params") else None]

    return {"attr." + a: view(v) for a, v in vars(est).items()
            if not a.startswith("_") and (a.endswith("_") and isinstance(v, plain + (list,))
                                          or a in ("estimators", "indices_source_deleted", "indices_target_added"))}


def fit_and_observe(sp, dspec, tests, how, seed, est=None, attrs=False):
    if est is None:
        est = W.build(sp)
    D = W.make_data(dspec)
    W.seed_globals(subseed(seed, "final"))
    v = outcome(lambda: W.do_fit(est, sp, D, how))
    if isinstance(v, Raised):
        return {"fit": v}
    res = {"fit": v}
    if attrs and sp["kind"] in ("adapter", "est"):
        res.update(fitted_attributes(est))
    res.update(observe(est, sp, W.make_data(dspec), [W.make_data(t) for t in tests], seed))
    return res


class HistProp(Prop):
    real, stubs, assumptions = REAL, STUBS, ASSUME
    quick = {"seconds": 38, "runs": 200000}
    allow = ("adapter", "est", "pipe", "sel")

    def setup(self):
        W.setup_process()

    def shrink(self, spec):
        h = spec.get("hist")
        if h:
            for i in range(len(h)):
                yield dict(spec, hist=h[:i] + h[i + 1:])
            for i, st in enumerate(h):
                if st.get("fault"):
                    s = dict(st)
                    del s["fault"]
                    yield dict(spec, hist=h[:i] + [s] + h[i + 1:])
                if st.get("d"):
                    yield dict(spec, hist=h[:i] + [dict(st, d=0)] + h[i + 1:])
        if len(spec.get("tests", [])) > 1:
            for i in range(len(spec["tests"])):
                yield dict(spec, tests=spec["tests"][:i] + spec["tests"][i + 1:])
        if "obj" in spec:
            for o in W.shrink_object(spec["obj"]):
                s = dict(spec, obj=o)
                if "obj2" in s:
                    s["obj2"] = o
                yield s
        for key in ("data", "tests"):
            for i, d in enumerate(spec.get(key, [])):
                for d2 in W.shrink_data(d):
                    yield dict(spec, **{key: spec[key][:i] + [d2] + spec[key][i + 1:]})

    def sig(self, spec, what):
        names = [s["name"] for s in spec["obj"].get("steps", [spec["obj"]]) if s["kind"] in ("adapter", "est", "sel", "fun")]
        return "%s:%s:%s" % (self.pid, "+".join(names) or W.obj_name(spec["obj"]), what)


# ------------------------------------------------------------------ H01 ----
class H01(HistProp):
    pid = "H01"
    rule = "a run counts when at least one library operation completed or was interrupted on caller-owned arrays; distinct = (object, operations, fault sites)"

    EXTRA = ("split", "scorer", "cv", "util", "util", "dataset", "deep", "deep", "deep")
    needs_torch = True

    def setup(self):
        from props import deep
        deep.DeepProp.setup(self)

    def gen(self, r, tier):
        if r.random() < 0.3:
            return {"kind": "extra", "what": r.choice(self.EXTRA), "sub": r.randrange(1 << 20), "data": [dict(W.gen_data(r, "bin"), scale=1.0)],
                    "seed": r.randrange(1 << 30), "fault": gen_fault(r, 0.3)}
        sp, tk = W.gen_object(r, self.allow)
        ds = gen_dataset_family(r, sp, tk, r.choice([1, 2, 2]))
        if r.random() < 0.5:
            for d in ds:
                d.pop("masked", None)
        return {"kind": "obj", "obj": sp, "task": tk, "data": ds, "hist": gen_hist(r, r.choice([1, 2, 3, 4]), len(ds)),
                "seed": r.randrange(1 << 30), "ydt": r.choice(["", "", "f8", "i4"])}

    def run(self, spec):
        out = Out()
        Ds = [W.make_data(d) for d in spec["data"]]
        if spec.get("ydt") and spec.get("task") != "reg":
            for D in Ds:
                D["y"] = D["y"].astype(spec["ydt"])
        refs = [{k: v.copy() for k, v in D.items()} for D in Ds]
        dig = [{k: digest(v) for k, v in D.items()} for D in Ds]
        if spec["kind"] == "extra":
            own = dict(Ds[0])
            name, steps = self.extra(spec, Ds[0], out)
            for k, v in Ds[0].items():           # arrays the operation brings along are the caller's too
                if own.get(k) is not v:
                    refs[0][k], dig[0][k] = v.copy(), digest(v)
        else:
            est = W.build(spec["obj"])
            steps = [(lambda st=st, i=i: do_step(est, spec["obj"], st, Ds, out, spec["seed"], i), st["op"])
                     for i, st in enumerate([{"op": "fit", "d": 0}] + spec["hist"])]
            name = None
        for fn, opname in steps:
            fn()
            for i, D in enumerate(Ds):
                for k, v in D.items():
                    if digest(v) != dig[i][k]:
                        ref = refs[i][k]
                        what = {"X": "samples", "y": "labels", "sd": "domain labels", "y_true": "labels", "w": "weights"}.get(k, k)
                        out.fail(self.sig(spec, "%s:%s" % (opname, k)) if name is None else "H01:%s:%s" % (name, k),
                                 "caller's %s array changed during %s: %s" % (what, opname, same(v, ref.astype(v.dtype)) or "metadata changed"))
                        return out
        out.nontrivial = True
        out.state = digest([spec.get("obj"), out.log])
        return out

    def extra(self, spec, D, out):
        from props import extras
        name, fns = extras.caller_array_ops(spec["what"], random.Random(spec["sub"]), D)
        out.hit("op:" + name)

        def one(fn, i):
            W.seed_globals(subseed(spec["seed"], i))
            v = run_faulted(fn, spec["fault"], out, name) if spec.get("fault") else outcome_all(fn, out)
            out.note(name, i, brief(v, 50) if isinstance(v, Raised) else "ok")
        return name, [(lambda fn=fn, i=i: one(fn, i), name) for i, fn in enumerate(fns)]


# ------------------------------------------------------------------ H02 ----
def reconfigure(est, target):
    """set_params on `est` so that its configuration equals `target`'s (same
    structure); returns the parameter names that were set."""
    have, want = est.get_params(deep=True), target.get_params(deep=True)
    new_est = {k: v for k, v in want.items() if k in have and hasattr(v, "get_params") and hasattr(have[k], "get_params")
               and type(v) is not type(have[k])}
    new_est.update({k: v for k, v in want.items() if k in have and (hasattr(v, "get_params") != hasattr(have[k], "get_params"))})
    simple = {k: v for k, v in want.items() if k in have and not hasattr(v, "get_params") and not hasattr(have[k], "get_params")
              and not isinstance(v, (list, tuple)) or (k in have and isinstance(v, list) and k.endswith("gamma"))}
    simple = {k: v for k, v in simple.items() if same(v, have[k]) is not None}
    if new_est:
        est.set_params(**new_est)
    if simple:
        est.set_params(**simple)
    return sorted(list(new_est) + list(simple))


class H02(HistProp):
    pid = "H02"
    rule = "a run counts when the object went through at least one earlier operation before the final fit and the final fit succeeded; distinct = (object, history with fault sites, data)"

    def gen(self, r, tier):
        vary = r.random() < 0.1                          # something that learns from the labels meets other classes
        if vary:
            name = r.choice([a for a in sorted(W.ADAPTERS) if W.ADAPTERS[a].ydep and "multi" in W.ADAPTERS[a].tasks])
            sp, tk = {"kind": "adapter", "name": name, "cfg": r.choice(W.ADAPTERS[name].cfgs)}, r.choice(["bin", "multi"])
        else:
            sp, tk = W.gen_object(r, self.allow)
        ds = gen_dataset_family(r, sp, tk, r.choice([2, 2, 3]))
        if vary:
            for d in ds:
                d["task"], d["d"] = r.choice(["bin", "multi"]), ds[0]["d"]
                d.pop("lab", None)
            ds[0]["task"], ds[-1]["task"] = "multi", "bin"
        hist = [{"op": r.choice(["fit", "fit_transform"]), "d": 0}] + gen_hist(r, 0 if vary else r.choice([0, 1, 2, 3]), len(ds), 0.45)
        if r.random() < 0.3:
            hist[0]["fault"] = gen_fault(r, 1.0)
        s = {"obj": sp, "task": tk, "data": ds, "hist": hist, "how": r.choice(["fit", "fit_transform"]),
             "final": r.choice([len(ds) - 1, len(ds) - 1, 0]), "seed": r.randrange(1 << 30)}
        s["tests"] = [as_test(ds[s["final"]], r) for _ in range(r.choice([1, 2]))]
        if r.random() < 0.3:                             # fit, or fit_transform: the same fitted object
            s["refhow"] = r.choice(["fit", "fit_transform"])
        if r.random() < 0.5:                             # data (and domains) only an earlier fit has seen
            s["tests"].append(dict(ds[0]) if r.random() < 0.5 else as_test(ds[0], r))
            s["tests"][-1].pop("masked", None)
        if r.random() < 0.35:
            s["obj2"] = self.variant(r, sp)
        if W.obj_multi_ok(sp) and r.random() < 0.3:
            # the object has seen a domain that the final data lack
            fin = len(ds) - 1
            s["final"], ds[0]["ntgt"], ds[fin]["ntgt"] = fin, 2, 1
            ds[fin]["nsrc"], ds[fin]["d"] = ds[0]["nsrc"], ds[0]["d"]
            s["tests"] = [as_test(ds[fin], r), dict(as_test(ds[0], r))]
            if r.random() < 0.6:
                hist[0].pop("fault", None)
        return s

    @staticmethod
    def variant(r, sp):
        """Same structure, another configuration."""
        if sp["kind"] == "adapter":
            return dict(sp, cfg=r.choice(W.ADAPTERS[sp["name"]].cfgs))
        if sp["kind"] == "est":
            # (a fit argument given to the constructor cannot be un-given by set_params)
            return dict(sp, cfg=r.choice([c for c in W.ESTIMATORS[sp["name"]].cfgs if ("boost" in c) == ("boost" in sp["cfg"])]))
        if sp["kind"] == "pipe":
            steps = []
            for s in sp["steps"]:
                if s["kind"] in ("adapter", "est"):
                    # inside a pipeline, `base_estimator` names the selector's own parameter
                    v = H02.variant(r, s)
                    if v["cfg"].get("base_estimator") == s["cfg"].get("base_estimator"):
                        s = v
                steps.append(s)
            return dict(sp, steps=steps)
        return sp

    def shrink(self, spec):
        for s in HistProp.shrink(self, spec):
            if len(s["data"]) > s["final"] and "obj2" in s and "obj2" in spec and s["obj"] is not spec["obj"]:
                s = dict(s)
                del s["obj2"]
            yield s
        if "obj2" in spec:
            s = dict(spec)
            del s["obj2"]
            yield s

    def run(self, spec):
        out = Out()
        sp, sp2 = spec["obj"], spec.get("obj2") or spec["obj"]
        fin = spec["data"][spec["final"]]
        refhow = spec.get("refhow") or spec["how"]
        ref = forked(lambda: fit_and_observe(sp2, fin, spec["tests"], refhow, spec["seed"], attrs=True))
        est = W.build(sp)
        Ds = [W.make_data(d) for d in spec["data"]]
        for i, st in enumerate(spec["hist"]):
            do_step(est, sp, st, Ds, out, spec["seed"], i)
        if sp2 is not sp:
            try:
                ch = reconfigure(est, W.build(sp2))
            except Exception as e:                       # noqa: BLE001
                out.fail(self.sig(spec, "set_params"), "set_params on a used object raised %r" % (e,))
                return out
            out.note("set_params", ch)
            out.hit("op:set_params", 1 if ch else 0)
        got = fit_and_observe(sp2, fin, spec["tests"], spec["how"], spec["seed"], est=est, attrs=True)
        if not isinstance(got["fit"], Raised):           # (an attribute only an earlier fit sets says nothing about this one)
            got = {k: got.get(k) for k in got if k in ref or not k.startswith("attr.")}
            got, ref = ({k: v[k] for k in sorted(v)} for v in (got, ref))
        out.nontrivial = not isinstance(ref["fit"], Raised) and len(spec["hist"]) > 0
        out.hit("ref_fit_failed", 1 if isinstance(ref["fit"], Raised) else 0)
        if refhow != spec["how"]:
            out.hit("op:other_way_of_fitting")
            for v in (got, ref):
                v["fit"] = "raised" if isinstance(v["fit"], Raised) else "done"
        d = same(got, ref)
        if d:
            what = "reconfigured" if sp2 is not sp else "refit"
            out.fail(self.sig(spec, what), "%s: after the history, a new fit differs from a fresh object's fit at %s\nhistory: %s"
                     % (W.obj_name(sp), d, "; ".join(out.log)))
        out.state = digest([sp, sp2, out.log, spec["data"]])
        return out


# ------------------------------------------------------------------ H03 ----
def supplied(est):
    """Estimators the user handed over (everything below the top level except
    the selectors a pipeline owns)."""
    from skada.base import BaseSelector
    out = {}
    for k, v in est.get_params(deep=True).items():
        if hasattr(v, "get_params") and not isinstance(v, type) and not isinstance(v, BaseSelector):
            out[k] = v
    return out


class H03(HistProp):
    pid = "H03"
    rule = "a run counts when the object was fitted or interrupted at least once and a copy of it was made; distinct = (object, history with fault sites, copy point)"

    def gen(self, r, tier):
        if r.random() < 0.12:
            return self.gen_scoring(r)
        sp, tk = W.gen_object(r, self.allow)
        if sp["kind"] == "pipe" and r.random() < 0.3 and not W.has_sel(sp):
            sp = dict(sp, mask=False)
        if sp["kind"] == "sel" and sp["name"] in ("Shared", "SelectSource") and r.random() < 0.5:
            sp = dict(sp, mask=False)
        ds = gen_dataset_family(r, sp, tk, 2)
        if sp.get("mask") is False or r.random() < 0.3:
            for d in ds:
                d.pop("masked", None)
        hist = gen_hist(r, r.choice([1, 2, 3]), 2, 0.4)
        hist[0]["op"] = r.choice(["fit", "fit_transform"])
        return {"obj": sp, "task": tk, "data": ds, "hist": hist, "tests": [as_test(ds[1], r)],
                "copy_at": r.randrange(len(hist) + 1), "how": r.choice(["fit", "fit_transform"]), "seed": r.randrange(1 << 30),
                "nest": r.random() < 0.25, "twice": r.random() < 0.3}

    def shrink(self, spec):
        for s in HistProp.shrink(self, spec):
            s = dict(s, copy_at=min(s["copy_at"], len(s["hist"])))
            yield s
        for k in ("nest", "twice"):
            if spec.get(k):
                yield dict(spec, **{k: False})

    # scorers and splitters are configured objects as well
    def gen_scoring(self, r):
        base = W.gen_data(r, "bin", multi_ok=False)
        base.pop("masked", None)
        base.update(scale=1.0, d=max(2, base["d"]), ns=max(12, base["ns"]), nt=max(12, base["nt"]))
        ds = [base, dict(base, seed=r.randrange(1 << 30))]
        if r.random() < 0.4:
            ds[1].update(ns=17, nt=14)
        hist = []
        for _ in range(r.choice([1, 2, 3])):
            st = {"op": r.choice(["plain", "coral", "reweight", "ot", "stub"]), "d": r.randrange(2)}
            f = gen_fault(r, 0.4)
            if f:
                st["fault"] = f
            hist.append(st)
        what = r.choice(sorted(X.scorers()) * 2 + sorted(X.splitters()))
        return {"what": what, "opt": r.randrange(4), "data": ds, "hist": hist, "copy_at": r.randrange(len(hist) + 1),
                "seed": r.randrange(1 << 30)}

    def run_scoring(self, spec):
        import inspect
        out = Out()
        what, seed = spec["what"], spec["seed"]
        split = what in X.splitters()

        def build():
            return X.splitters()[what](seed % 100) if split else X.scorer_with(what, spec["opt"], seed % 100)

        Ds = [W.make_data(d) for d in spec["data"]]
        pipes = {}

        def use(obj, kind, k):
            D = Ds[k]
            if split:
                sd = X.lodo_labels(D["sd"]) if what == "LeaveOneDomainOut" else D["sd"]
                return lambda: [(a.copy(), b.copy()) for a, b in obj.split(D["X"], D["y"], sd)]
            if (kind, k) not in pipes:
                pipes[kind, k] = X.scoring_pipe(kind)
                pipes[kind, k].fit(D["X"], D["y"].copy(), sample_domain=D["sd"])
            y = D["y"].copy()
            if what == "CircularValidation":
                y[D["sd"] < 0] = -1
            return lambda: float(obj(pipes[kind, k], D["X"], y, **X.score_kwargs(what, D)))

        def view(obj):
            names = [p for p in inspect.signature(type(obj).__init__).parameters if p not in ("self", "args")]
            return {p: v if not hasattr(v, "get_params") else [type(v).__name__, digest(vars(v))]
                    for p, v in vars(obj).items() if p in names}

        def final(obj):
            W.seed_globals(subseed(seed, "final"))
            return outcome(use(obj, "plain", 1))

        ref = forked(lambda: final(build()))
        obj, sibling = build(), build()
        v0 = digest(view(obj))
        copies = []
        for i in range(len(spec["hist"]) + 1):
            if i == spec["copy_at"]:
                copies.append(copy.deepcopy(obj))
            if i < len(spec["hist"]):
                st = spec["hist"][i]
                W.seed_globals(subseed(seed, "step", i))
                fn = use(obj, st["op"], st["d"])
                if st.get("fault"):
                    run_faulted(fn, st["fault"], out, "step %d" % i)
                else:
                    v = outcome_all(fn, out)
                    out.note("step", i, what, "on", st["op"], "data", st["d"], "->", brief(v, 40))
                if digest(view(obj)) != v0:
                    out.fail("H03:%s:params" % what, "%s: its constructor parameters or the estimators supplied to it changed by use: now %s\nhistory: %s"
                             % (what, brief(view(obj), 300), "; ".join(out.log)))
                    return out
        for who, o in (("itself", obj), ("its copy", copies[0]), ("another one built alike", sibling)):
            d = same(final(o), ref)
            if d:
                out.fail("H03:%s:%s" % (what, who.split()[-1]), "%s: %s gives something else than a new one: %s\nhistory: %s"
                         % (what, who, d, "; ".join(out.log)))
                return out
        out.hit("scoring:" + what)
        out.nontrivial = not isinstance(ref, Raised)
        out.state = digest([what, spec["opt"], spec["copy_at"], out.log])
        return out

    def run(self, spec):
        from sklearn.base import clone
        if "what" in spec:
            return self.run_scoring(spec)
        out = Out()
        sp, Ds = spec["obj"], None
        ref = forked(lambda: fit_and_observe(sp, spec["data"][1], spec["tests"], spec["how"], spec["seed"]))
        est = W.build(sp)
        Ds = [W.make_data(d) for d in spec["data"]]
        pv0 = params_view(est)
        sibling = W.build(sp)
        sup0 = {k: digest(vars(v)) for k, v in supplied(est).items()}
        clones = []

        def check(when):
            d = same(params_view(est), pv0, rtol=0, atol=0)
            if d:
                out.fail(self.sig(spec, "params"), "constructor parameters changed %s: %s\nhistory: %s" % (when, d, "; ".join(out.log)))
                return False
            for k, v in supplied(est).items():
                if k in sup0 and digest(vars(v)) != sup0[k]:
                    out.fail(self.sig(spec, "supplied:" + k.split("__")[-1]), "the supplied estimator %r was modified %s (now has %s)\nhistory: %s"
                             % (k, when, sorted(vars(v)), "; ".join(out.log)))
                    return False
            return True

        for i in range(len(spec["hist"]) + 1):
            if i == spec["copy_at"]:
                c = outcome(lambda: clone(est))
                if isinstance(c, Raised):
                    out.fail(self.sig(spec, "clone"), "copying the object raised %r" % c)
                    return out
                if spec.get("twice"):
                    c = clone(c)
                d = same(params_view(c), pv0, rtol=0, atol=0)
                if d:
                    out.fail(self.sig(spec, "clone-params"), "a copy has other parameters than the original: %s" % d)
                    return out
                clones.append(c)
                if spec.get("nest") and sp["kind"] == "pipe":
                    from skada import make_da_pipeline
                    outer = outcome(lambda: make_da_pipeline(W.build({"kind": "plain", "name": "scaler"}), est))
                    out.note("nested into another pipeline", brief(outer, 40) if isinstance(outer, Raised) else "ok")
                if not check("by copying"):
                    return out
            if i < len(spec["hist"]):
                do_step(est, sp, spec["hist"][i], Ds, out, spec["seed"], i)
                if not check("by " + spec["hist"][i]["op"]):
                    return out
        got = fit_and_observe(sp, spec["data"][1], spec["tests"], spec["how"], spec["seed"], est=clones[0])
        d = same(got, ref)
        if d:
            out.fail(self.sig(spec, "clone-behaviour"), "a copy taken before step %d does not behave like a new object with the same configuration: %s\nhistory: %s"
                     % (spec["copy_at"], d, "; ".join(out.log)))
            return out
        if spec.get("nest"):
            got = fit_and_observe(sp, spec["data"][1], spec["tests"], spec["how"], spec["seed"], est=est)
            d = same(got, ref)
            if d:
                out.fail(self.sig(spec, "reused-as-step"), "the object behaves differently after being used as a step elsewhere: %s" % d)
                return out
        # reconfiguring one object must not reach another one built the same way
        changed = tweak(est)
        d = same(params_view(sibling), pv0, rtol=0, atol=0)
        if d:
            out.fail(self.sig(spec, "sibling"), "using and reconfiguring (%s) one object changed the parameters of another: %s" % (changed, d))
            return out
        out.nontrivial = not isinstance(ref["fit"], Raised)
        out.state = digest([spec["obj"], spec["copy_at"], out.log])
        return out


def tweak(est):
    """Change every numeric parameter reachable through set_params."""
    new = {}
    for k, v in est.get_params(deep=True).items():
        if isinstance(v, float) and not isinstance(v, bool):
            new[k] = v * 2 + 1.0
        elif isinstance(v, int) and not isinstance(v, bool) and k.split("__")[-1] != "verbose":
            new[k] = v + 1
    done = []
    for k, v in new.items():
        if not isinstance(outcome(lambda: est.set_params(**{k: v})), Raised):
            done.append(k)
    return done


# ------------------------------------------------------------------ H04 ----
class H04(HistProp):
    pid = "H04"
    rule = "a run counts when the object was fitted and at least two evaluation calls were made on it; distinct = (object, call sequence with fault sites, data)"

    def gen(self, r, tier):
        sp, tk = W.gen_object(r, self.allow)
        ds = gen_dataset_family(r, sp, tk, 1)
        same_shape = dict(ds[0], seed=r.randrange(1 << 30))
        same_shape.pop("masked", None)
        tests = [as_test(ds[0], r), same_shape]
        nd = 3
        ops = [o for o in OPS if not o.startswith("fit")]
        calls = gen_hist(r, r.choice([2, 3, 4, 5, 6]), nd, 0.25, ops)
        if r.random() < 0.35:                            # same buffer, new contents
            calls.insert(r.randrange(1, len(calls)), {"op": "rewrite", "d": r.randrange(1, nd)})
        if r.random() < 0.4:                             # call, refill the buffer, call again
            d = r.randrange(1, nd)
            c = {"op": r.choice(ops), "d": d}
            if r.random() < 0.5:
                c["tonly"] = True
            at = r.randrange(0, len(calls) + 1)
            calls[at:at] = [c, {"op": "rewrite", "d": d}, dict(c)]
        return {"obj": sp, "task": tk, "data": ds, "tests": tests, "hist": calls, "how": r.choice(["fit", "fit_transform"]),
                "seed": r.randrange(1 << 30)}

    def run(self, spec):
        out = Out()
        sp = spec["obj"]
        est = W.build(sp)
        W.seed_globals(subseed(spec["seed"], "fit"))
        v = outcome(lambda: W.do_fit(est, sp, W.make_data(spec["data"][0]), spec["how"]))
        if isinstance(v, Raised):
            out.hit("fit_failed")
            out.note("fit", v)
            return out
        specs = [spec["data"][0]] + spec["tests"]
        Ds = [W.make_data(d) for d in specs]
        Dt = [W.target_part(D) for D in Ds]              # buffers that live as long as the caller
        avail = W.ops_for(est, sp)
        if not avail:
            return out
        ver, refs, plan = [0] * len(specs), {}, []
        for st in spec["hist"]:
            if st["op"] == "rewrite":
                ver[st["d"] % len(specs)] += 1
                plan.append((st, None))
                continue
            i = st["d"] % len(specs)
            op = st["op"] if st["op"] in avail else avail[hash_small(st["op"]) % len(avail)]
            if op == "weights":
                i = 0
            key = (op, i, ver[i], bool(st.get("tonly")) and op != "weights")
            plan.append((dict(st, op=op, d=i), key))
            if key not in refs:
                refs[key] = None
        for key in refs:
            op, i, k, to = key
            refs[key] = forked(lambda: self.ref(est, sp, op, versioned(specs[i], k), to, spec["seed"]))
        done, rw = 0, [0] * len(specs)
        for j, (st, key) in enumerate(plan):
            if st["op"] == "rewrite":
                i = st["d"] % len(specs)
                rw[i] += 1
                new = W.make_data(versioned(specs[i], rw[i]))
                for k in Ds[i]:
                    Ds[i][k][...] = new[k]
                for k, a in W.target_part(new).items():
                    Dt[i][k][...] = a
                out.note("caller rewrote data", i, "in place")
                continue
            W.seed_globals(subseed(spec["seed"], "call", key[0]))
            fn = (lambda: W.do_op(est, sp, key[0], Dt[key[1]] if key[3] else Ds[key[1]]))
            if st.get("fault"):
                v = run_faulted(fn, st["fault"], out, "call %d %s" % (j, key[0]))
                if isinstance(v, Raised):
                    continue
            else:
                v = outcome_all(fn, out)
                out.note("call", j, key)
            out.hit("op:" + key[0])
            done += 1
            d = same(v, refs[key])
            if d:
                out.fail(self.sig(spec, key[0]), "%s: %s returned something else than the same call made alone right after fitting: %s\ncalls: %s"
                         % (W.obj_name(sp), key[0], d, "; ".join(out.log)))
                return out
        out.nontrivial = done >= 2
        out.state = digest([sp, out.log, specs])
        return out

    @staticmethod
    def ref(est, sp, op, dspec, to, seed):
        W.seed_globals(subseed(seed, "call", op))
        return outcome(lambda: W.do_op(est, sp, op, W.make_data(dspec), to))


def hash_small(s):
    return sum(map(ord, s))


def versioned(dspec, k):
    return dspec if k == 0 else dict(dspec, seed=dspec["seed"] + 7919 * k)


# ------------------------------------------------------------------ H05 ----
# what was saved is what comes back: only the last bits may depend on how arrays lie in memory
EXACT = {"rtol": 1e-11, "atol": 1e-13}


class H05(HistProp):
    pid = "H05"
    rule = "a run counts when a fitted object was saved, the process restarted (a fresh process image) and the restored copy evaluated; distinct = (object, history, save point, format)"

    def gen(self, r, tier):
        sp, tk = W.gen_object(r, self.allow)
        ds = gen_dataset_family(r, sp, tk, 2)
        pre = gen_hist(r, r.choice([0, 1, 2]), 2, 0.3)
        post = gen_hist(r, r.choice([0, 1, 2]), 2, 0.5)
        return {"obj": sp, "task": tk, "data": ds, "tests": [as_test(ds[0], r), as_test(ds[0], r)], "hist": pre, "post": post,
                "fmt": r.choice(["pickle2", "pickle5", "pickle5", "joblib", "joblib_mmap", "deepcopy"]), "how": r.choice(["fit", "fit_transform"]),
                "refit": r.random() < 0.4, "gen": r.choice([1, 1, 2]), "seed": r.randrange(1 << 30)}

    def shrink(self, spec):
        yield from HistProp.shrink(self, spec)
        for i in range(len(spec["post"])):
            yield dict(spec, post=spec["post"][:i] + spec["post"][i + 1:])
        if spec["gen"] > 1:
            yield dict(spec, gen=1)

    def run(self, spec):
        out = Out()
        sp = spec["obj"]
        train, tests = spec["data"][0], spec["tests"]
        fmt = spec["fmt"]

        def restart(kind, blob):
            est = load(kind, blob)
            for _ in range(spec["gen"] - 1):
                est = load(*dump(est, fmt))
            res = observe(est, sp, W.make_data(train), [W.make_data(t) for t in tests], spec["seed"])
            again = None
            if spec.get("refit"):
                again = fit_and_observe(sp, spec["data"][1], [], spec["how"], spec["seed"], est=est)
            return res, again
        pr = Pristine(restart)
        try:
            ref2 = forked(lambda: fit_and_observe(sp, spec["data"][1], [], spec["how"], spec["seed"])) if spec.get("refit") else None
            est = W.build(sp)
            Ds = [W.make_data(d) for d in spec["data"]]
            for i, st in enumerate(spec["hist"]):
                do_step(est, sp, st, Ds, out, spec["seed"], i)
            W.seed_globals(subseed(spec["seed"], "fit"))
            v = outcome(lambda: W.do_fit(est, sp, W.make_data(train), spec["how"]))
            if isinstance(v, Raised):
                out.hit("fit_failed")
                return out
            try:
                kind, blob = dump(est, fmt)
            except Exception as e:                       # noqa: BLE001
                out.fail(self.sig(spec, "save"), "a fitted object could not be saved: %r" % (e,))
                return out
            cp = copy.deepcopy(est) if fmt == "deepcopy" else load(kind, blob)
            ref = forked(lambda: observe(est, sp, W.make_data(train), [W.make_data(t) for t in tests], spec["seed"]))
            for i, st in enumerate(spec["post"]):
                do_step(est, sp, st, Ds, out, spec["seed"], 100 + i)
            got = observe(cp, sp, W.make_data(train), [W.make_data(t) for t in tests], spec["seed"])
            d = same(got, ref, **EXACT)
            if d:
                out.fail(self.sig(spec, "copy"), "a saved copy changed behaviour while the original went on being used: %s\nlog: %s" % (d, "; ".join(out.log)))
                return out
            res, again = pr.call(kind, blob)
            out.hit("fault:process_restart")
            d = same(res, ref, **EXACT)
            if d:
                out.fail(self.sig(spec, "restored"), "after a process restart the restored object answers differently: %s" % d)
                return out
            if again is not None:
                d = same(again, ref2)
                if d:
                    out.fail(self.sig(spec, "restored-refit"), "refitting the restored object differs from a fresh fit: %s" % d)
                    return out
            out.nontrivial = True
            out.state = digest([sp, fmt, out.log, spec["data"]])
            return out
        finally:
            pr.close()


def dump(est, fmt):
    if fmt.startswith("joblib"):
        import joblib
        p = os.path.join(os.environ.get("VERIF_SCRATCH", "."), "snap-%d.joblib" % os.getpid())
        joblib.dump(est, p)
        b = open(p, "rb").read()
        os.unlink(p)
        return fmt, b
    return "pickle", pickle.dumps(est, protocol=2 if fmt == "pickle2" else 5)


def load(kind, blob):
    if kind.startswith("joblib"):
        import joblib
        p = os.path.join(os.environ.get("VERIF_SCRATCH", "."), "load-%d.joblib" % os.getpid())
        with open(p, "wb") as f:
            f.write(blob)
        est = joblib.load(p, mmap_mode="r" if kind == "joblib_mmap" else None)
        os.unlink(p)
        return est
    return pickle.loads(blob)


# ------------------------------------------------------------------ H06 ----
def process_state():
    """Process-wide settings that belong to the user."""
    import sklearn
    import torch
    return {"np_random": digest(list(np.random.get_state(legacy=True))), "py_random": digest(list(random.getstate()[1])),
            "torch_random": digest(torch.get_rng_state()), "np_err": np.geterr(), "np_print": {k: v for k, v in np.get_printoptions().items() if k != "formatter"},
            "sklearn": {k: v for k, v in sklearn.get_config().items()}, "torch_dtype": str(torch.get_default_dtype()),
            "torch_grad": torch.is_grad_enabled(), "torch_threads": torch.get_num_threads(), "cwd": os.getcwd(),
            "torch_determ": torch.are_deterministic_algorithms_enabled(),
            "environ": digest(sorted(os.environ.items())), "filters": len(warnings.filters)}


def process_settings():
    """The settings of process_state that anything else in the process reads
    (the random streams and the list of warning filters left out)."""
    import sklearn
    import torch
    return {"np_err": np.geterr(), "np_print": {k: v for k, v in np.get_printoptions().items() if k != "formatter"},
            "sklearn": {k: v for k, v in sklearn.get_config().items()}, "torch_dtype": str(torch.get_default_dtype()),
            "torch_new": str(torch.zeros(1).dtype), "torch_grad": torch.is_grad_enabled(), "torch_threads": torch.get_num_threads(),
            "cwd": os.getcwd(), "torch_determ": torch.are_deterministic_algorithms_enabled(), "environ": digest(sorted(os.environ.items()))}


class H06(HistProp):
    pid = "H06"
    rule = "a run counts when a seeded operation completed under two different global random states with draws injected between its instants; distinct = (operation, interference instants)"

    def gen(self, r, tier):
        x = r.random()
        s = {"seed": r.randrange(1 << 30), "nint": r.choice([0, 1, 3, 10]), "uint": round(r.random(), 6), "reseed": r.random() < 0.5}
        if x < 0.12:
            from props import deep
            s["what"] = "deep"
            s["data"] = deep.gen_datas(r, 2)
            s["net"] = deep.net_spec(r, s["data"])
            s["evals"] = [deep.gen_eval(r) for _ in range(r.choice([0, 1, 2, 3]))]
            s["more"] = r.random() < 0.3
        elif x < 0.45:
            s["what"] = "extra"
            s["sub"] = r.randrange(1 << 30)
            from props import extras
            s["name"] = r.choice(sorted(extras.SEEDED))
            s["data"] = [W.gen_data(r, "bin")]
            s["data"][0].pop("masked", None)
        else:
            s["what"] = "obj"
            s["obj"], s["task"] = W.gen_object(r, self.allow, only=lambda sp: not uses_global_rng(sp))
            s["data"] = gen_dataset_family(r, s["obj"], s["task"], 1)
            s["tests"] = [as_test(s["data"][0], r)]
            s["how"] = r.choice(["fit", "fit_transform"])
        s["fault"] = gen_fault(r, 0.2)
        return s

    needs_torch = True

    def setup(self):
        from props import deep
        deep.DeepProp.setup(self)
        from props import fetch
        fetch.light()

    def deep_body(self, spec):
        from props import deep
        from props import deepzoo as Z
        c = spec["net"]
        DS = [Z.deep_data(x) for x in spec["data"]]
        net = Z.build_net(c, spec["data"][0]["d"])

        def go():
            deep.fit_net(net, c, DS[0], spec["seed"])
            for o in spec["evals"]:
                outcome(lambda: deep.do_eval(net, c, o, DS))
            if spec["more"]:
                deep.more_training(net, c, DS[1], spec["seed"] + 1)
        return go

    def run_deep(self, spec):
        """Training draws from the process-wide streams by contract; every other
        process-wide setting stays as it was, also when training is interrupted."""
        out = Out()
        name = spec["net"]["name"]
        out.hit("net:" + name)
        go = self.deep_body(spec)
        W.seed_globals(subseed(spec["seed"], "A"))
        before = process_state()
        v = run_faulted(go, spec["fault"], out, name) if spec.get("fault") else outcome_all(go, out)
        after = process_state()
        for k in before:
            if not k.endswith("_random") and same(before[k], after[k]):
                out.fail("H06:%s:%s" % (name, k), "training or evaluating %s (%s) changed the process-wide %s: %s"
                         % (name, "interrupted" if spec.get("fault") else "completed", k, same(after[k], before[k])))
                return out
        out.note(name, v if isinstance(v, Raised) else "ok")
        out.nontrivial = True
        out.state = digest([name, spec["net"], spec["evals"], out.log])
        return out

    def body(self, spec):
        if spec["what"] == "extra":
            from props import extras
            return extras.SEEDED[spec["name"]](random.Random(spec["sub"]), W.make_data(spec["data"][0]))
        sp = spec["obj"]
        est = W.build(sp)
        D, T = W.make_data(spec["data"][0]), [W.make_data(t) for t in spec["tests"]]

        def go():
            res = {"fit": W.do_fit(est, sp, D, spec["how"])}
            for nm, X, to in (("train", D, False), ("test", T[0], True)):
                for op in W.ops_for(est, sp):
                    if op != "weights" or nm == "train":
                        res[nm + op] = outcome(lambda: W.do_op(est, sp, op, X, to))
            return res
        return go

    def run(self, spec):
        if spec["what"] == "deep":
            return self.run_deep(spec)
        import torch
        out = Out()
        name = spec["name"] if spec["what"] == "extra" else W.obj_name(spec["obj"])

        def quiet():
            W.seed_globals(subseed(spec["seed"], "A"))
            go = self.body(spec)
            before = process_state()
            val, exc, n, _ = ENGINE.run_single(go)
            if exc is not None and not isinstance(exc, Exception):
                raise exc
            return (Raised(exc) if exc is not None else val), before, process_state(), n
        a, before, after, n = forked(quiet)
        out.instants += n
        for k in before:
            if same(before[k], after[k]):
                out.fail("H06:%s:%s" % (name, k), "%s changed the process-wide %s: %s" % (name, k, same(after[k], before[k])))
                return out
        # the same work while another party keeps using the global generators
        W.seed_globals(subseed(spec["seed"], "B"))
        r = rng(spec["seed"], "interf")
        at = sorted(1 + int(r.random() * max(1, n)) for _ in range(spec["nint"]))
        st = {"k": 0}

        def hook(eng, code, where):
            while st["k"] < len(at) and eng.n >= at[st["k"]]:
                st["k"] += 1
                np.random.rand(3)
                random.random()
                torch.rand(2)
                if spec.get("reseed"):
                    np.random.seed(eng.n)
                    random.seed(eng.n)
                    torch.manual_seed(eng.n)
                out.hit("fault:rng_interference")
        go = self.body(spec)
        val, exc, m, _ = ENGINE.run_single(go, hook=hook)
        if exc is not None and not isinstance(exc, Exception):
            raise exc
        b = Raised(exc) if exc is not None else val
        out.instants += m
        d = same(b, a)
        out.note(name, "interference at", at, "of", n)
        if d:
            out.fail("H06:%s:result" % name, "%s with a fixed random_state depends on the global random state: %s" % (name, d))
            return out
        # an interrupt in the middle must not leave process-wide settings changed
        if spec.get("fault"):
            def interrupted():
                W.seed_globals(subseed(spec["seed"], "A"))
                go = self.body(spec)
                before = process_state()
                o = Out()
                run_faulted(go, spec["fault"], o, name)
                return before, process_state(), o.counts, o.log
            before, after, counts, log = forked(interrupted)
            for k, v in counts.items():
                out.hit(k, v)
            out.log.extend(log)
            for k in before:
                if same(before[k], after[k]):
                    out.fail("H06:%s:%s" % (name, k), "%s, interrupted (%s), left the process-wide %s changed: %s"
                             % (name, log, k, same(after[k], before[k])))
                    return out
        out.nontrivial = not isinstance(a, Raised)
        out.state = digest([name, spec.get("obj"), out.log])
        return out

    def shrink(self, spec):
        if spec.get("fault"):
            yield dict(spec, fault=None)
        if spec["nint"] > 1:
            yield dict(spec, nint=1)
        if spec["what"] == "obj":
            yield from HistProp.shrink(self, spec)


GLOBAL_RNG = {"svr"}        # scikit-learn's SVR draws from the global stream and has no random_state ...


def uses_global_rng(sp):
    """Objects that draw from the global stream by contract (random_state=None
    and no parameter to fix it)."""
    if sp["kind"] == "fun" and not sp.get("base"):
        return True               # ... and so does SVC(random_state=None), the default base
    return any(s["name"] in GLOBAL_RNG for s in sp.get("steps", [sp]))


# ------------------------------------------------------------------ H07 ----
class H07(HistProp):
    pid = "H07"
    rule = "a run counts when both worlds were fitted and at least one target label differed between them; distinct = (object, history, relabelling)"

    def gen(self, r, tier):
        x = r.random()
        s = {"seed": r.randrange(1 << 30), "relabel": r.choice(["mask", "flip", "shuffle", "const", "random"])}
        if x < 0.15:
            from props import deep
            from props import deepzoo as Z
            s["what"] = "deep"
            s["data"] = deep.gen_datas(r, 2)
            s["net"] = deep.net_spec(r, s["data"], [n for n in Z.METHODS if n != "TargetOnly"])
            s["task"] = s["data"][0]["task"]
            s["hist"] = [{"op": r.choice(["fit", "partial", "eval"]), "d": r.randrange(2), "fault": gen_fault(r, 0.4)} for _ in range(r.choice([0, 0, 1, 2]))]
            s["form"] = r.choice(["array", "dict", "dataset"])
            return s
        if x < 0.4:
            from props import extras
            s["what"] = "scorer"
            s["name"] = r.choice(sorted(extras.UNSUP_SCORERS))
            s["obj"], s["task"] = W.gen_object(r, ("pipe",), task="bin", only=lambda sp: proba_final(sp))
        else:
            s["what"] = "obj"
            s["obj"], s["task"] = W.gen_object(r, ("pipe", "est", "adapter"), only=lambda sp: (not W.has_sel(sp) or sp.get("steps", [sp])[-1]["kind"] == "final")
                                                and not (sp["kind"] == "adapter" and sp["name"] == "StratDomainSubsampler"))
        s["data"] = gen_dataset_family(r, s["obj"], s["task"], 2)
        for d in s["data"]:
            d.pop("masked", None)
            d["nsrc"], d["ntgt"] = max(1, d["nsrc"]), max(1, d["ntgt"])
        if s["obj"].get("nosd") == "both":
            s["obj"]["nosd"] = "eval"
        s["tests"] = [as_test(s["data"][1], r)]
        s["hist"] = gen_hist(r, r.choice([0, 0, 1, 2]), 2, 0.4)
        s["how"] = r.choice(["fit", "fit_transform"])
        if s["relabel"] != "mask" and r.random() < 0.3:
            s["some"] = r.choice([2, 3, 5])              # every so-manieth target label is masked already
        return s

    @staticmethod
    def mask_some(D, k, task):
        y = D["y"].copy()
        y[np.flatnonzero(D["sd"] < 0)[::k]] = np.nan if task == "reg" else -1
        return dict(D, y=y)

    @staticmethod
    def relabel(D, how, seed, task):
        D = dict(D)
        g = np.random.RandomState(seed % (2 ** 31))
        y, t = D["y"].copy(), D["sd"] < 0
        if how == "mask":
            y[t] = np.nan if task == "reg" else -1
        elif how == "flip":
            y[t] = -y[t] + (1 if task != "reg" else 0) if task != "multi" else (y[t] + 1) % 3
        elif how == "shuffle":
            y[t] = g.permutation(y[t])
        elif how == "const":
            y[t] = 0.0 if task == "reg" else (y[~t].max() if g.rand() < 0.5 else y[~t].min())
        else:
            y[t] = g.randn(t.sum()) * 10 if task == "reg" else g.choice(np.unique(y[~t]), size=int(t.sum()))
        D["y"] = y
        return D

    needs_torch = True

    def setup(self):
        from props import deep
        deep.DeepProp.setup(self)

    def deep_world(self, spec, secret):
        from props import deep
        from props import deepzoo as Z
        out, c = Out(), spec["net"]
        DS = [Z.deep_data(x) for x in spec["data"]]
        for D in DS:
            D["y"] = D["y_true"].copy()
        if secret:
            DS = [self.relabel(D, spec["relabel"], spec["seed"] + i, spec["task"]) for i, D in enumerate(DS)]
        net = Z.build_net(c, spec["data"][0]["d"])

        def fit(D, seed):
            W.seed_globals(seed)
            if spec["form"] == "array":
                return net.fit(D["X"], D["y"], sample_domain=D["sd"]) and None
            d = {"X": D["X"], "y": D["y"], "sample_domain": D["sd"]}
            if spec["form"] == "dataset":
                d = Z.DeepDADataset(d)
            return net.fit(d, None) and None
        for i, st in enumerate(spec["hist"]):
            D = DS[st["d"]]
            fn = {"fit": lambda: fit(D, i), "partial": lambda: deep.more_training(net, c, D, i) and None,
                  "eval": lambda: net.predict(D["X"], D["sd"], allow_source=True)}[st["op"]]
            W.seed_globals(i)
            v = run_faulted(fn, st["fault"], out, st["op"]) if st.get("fault") else outcome_all(fn, out)
            out.note(i, st["op"], v if isinstance(v, Raised) else "ok")
        v = outcome_all(lambda: fit(DS[1], subseed(spec["seed"], "fit")), out)
        if isinstance(v, Raised):
            return {"fit": v}, out.log, out.counts, out.instants
        res = {"fit": v, "state": deep.net_state(net)}
        for i, o in enumerate(("predict", "predict_proba")):
            res[o] = outcome(lambda: getattr(net, o)(DS[i]["X"], DS[i]["sd"], allow_source=True))
        res["features"] = outcome(lambda: net.predict_features(DS[0]["X"]))
        return res, out.log, out.counts, out.instants

    def world(self, spec, secret):
        if spec["what"] == "deep":
            return self.deep_world(spec, secret)
        out = Out()
        sp = spec["obj"]
        Ds = [W.make_data(d) for d in spec["data"]]
        if secret:
            Ds = [self.relabel(D, spec["relabel"], spec["seed"] + i, spec["task"]) for i, D in enumerate(Ds)]
        if spec.get("some"):
            Ds = [self.mask_some(D, spec["some"], spec["task"]) for D in Ds]
        est = W.build(sp)
        for i, st in enumerate(spec["hist"]):
            do_step(est, sp, st, Ds, out, spec["seed"], i)
        D = Ds[1]
        W.seed_globals(subseed(spec["seed"], "fit"))
        v = outcome(lambda: W.do_fit(est, sp, {k: a.copy() for k, a in D.items()}, spec["how"]))
        if isinstance(v, Raised):
            return {"fit": v}, out.log, out.counts, out.instants
        T = [W.make_data(t) for t in spec["tests"]]
        plain = W.make_data(spec["data"][1])
        if spec["what"] == "scorer":
            from props import extras
            res = {"score": outcome(lambda: extras.UNSUP_SCORERS[spec["name"]](est, D, spec["seed"]))}
        else:
            # adapters that only propagate labels legitimately return the (masked or given) target labels
            res = {"fit": strip_target_labels(v, D["sd"]) if passes_labels(sp) else v}
            res.update(observe(est, sp, plain, T, spec["seed"]))
        return res, out.log, out.counts, out.instants

    def run(self, spec):
        out = Out()
        a, la, ca, n = forked(lambda: self.world(spec, False))
        b, lb, cb, m = forked(lambda: self.world(spec, True))
        for c in (ca, cb):
            for k, v in c.items():
                out.hit(k, v)
        out.instants += n + m
        out.log.extend(la)
        d = same(b, a)
        if d:
            obj = spec["net"]["name"] if spec["what"] == "deep" else W.obj_name(spec["obj"])
            out.fail("H07:deep:" + obj if spec["what"] == "deep" else self.sig(spec, spec.get("name", "obj")), "target labels (%s) leak into the result of %s%s: %s"
                     % (spec["relabel"], obj, " scored by " + spec["name"] if spec.get("name") else "", d))
            return out
        ok = not isinstance(a.get("fit"), Raised) and not isinstance(a.get("score"), Raised)
        out.hit("score_raised" if isinstance(a.get("score"), Raised) else "score_ok", 1 if spec["what"] == "scorer" else 0)
        out.nontrivial = ok
        out.state = digest([spec.get("obj"), spec.get("net"), spec.get("name"), spec["relabel"], out.log])
        return out


def proba_final(sp):
    return sp["kind"] == "pipe" and sp["steps"][-1]["kind"] == "final" and sp["steps"][-1]["name"] in ("lr", "lrc", "nb", "stub") and not W.has_sel(sp)


def passes_labels(sp):
    return sp["kind"] == "adapter" and sp["name"] in ("Subsampler", "DomainSubsampler", "StratDomainSubsampler")


def strip_target_labels(v, sd):
    """A subsampling adapter returns (X, y, params) with the caller's own target
    labels among y: those entries are its input, not something it learned."""
    if isinstance(v, tuple) and len(v) == 3 and isinstance(v[1], np.ndarray):
        psd = v[2].get("sample_domain") if isinstance(v[2], dict) else None
        psd = psd if psd is not None else (sd if len(v[1]) == len(sd) else None)
        if psd is not None and len(psd) == len(v[1]):
            y = v[1].astype(float).copy()
            y[np.asarray(psd) < 0] = 0
            return (v[0], y, v[2])
    return v


# ------------------------------------------------------------------ H09 ----
class H09(HistProp):
    pid = "H09"
    rule = "a run counts when the simulated collaborator failure fired inside the operation; distinct = (object, collaborator, call number, operation)"

    def gen(self, r, tier):
        sp, tk = W.gen_object(r, self.allow)
        if r.random() < 0.4:
            e = W.ADAPTERS[r.choice(sorted(W.ADAPTERS))]
            sp, tk = {"kind": "adapter", "name": e.name, "cfg": r.choice(e.cfgs)}, r.choice(e.tasks)
        ds = gen_dataset_family(r, sp, tk, 1)
        shots = [{"exc": r.choice(["native", "native", "InjectedError", "ValueError", "LinAlgError", "TypeError", "KeyError", "MemoryError", "OSError",
                                   "AttributeError", "StopIteration"]),
                  "u": round(r.random(), 6), "v": round(r.random(), 6)} for _ in range(r.choice([2, 4, 6, 8]))]
        return {"obj": sp, "task": tk, "data": ds, "tests": [as_test(ds[0], r)], "how": r.choice(["fit", "fit_transform"]),
                "shots": shots, "phase": r.choice(["fit", "fit", "op"]), "seed": r.randrange(1 << 30), "opn": r.randrange(8)}

    def shrink(self, spec):
        if len(spec["shots"]) > 1:
            for i in range(len(spec["shots"])):
                yield dict(spec, shots=spec["shots"][:i] + spec["shots"][i + 1:])
        yield from HistProp.shrink(self, spec)

    def run(self, spec):
        from props import collab
        out = Out()
        sp = spec["obj"]
        test = W.make_data(spec["tests"][0])

        def make():
            est = W.build(sp)
            D = W.make_data(spec["data"][0])
            if spec["phase"] == "fit":
                return est, (lambda: W.do_fit(est, sp, D, spec["how"])), "fit"
            W.seed_globals(subseed(spec["seed"], "fit"))
            W.do_fit(est, sp, D, spec["how"])
            ops = [o for o in W.ops_for(est, sp)]
            if not ops:
                return est, None, None
            op = ops[spec["opn"] % len(ops)]
            tgt = D if op == "weights" else test
            return est, (lambda: W.do_op(est, sp, op, tgt)), op

        def clean():
            try:
                est, fn, op = make()
            except Exception:                            # noqa: BLE001
                return None
            if fn is None:
                return None
            W.seed_globals(subseed(spec["seed"], "go"))
            with collab.watch() as w:
                v = outcome(fn)
            obs = observe(est, sp, W.make_data(spec["data"][0]), [test], spec["seed"]) if not isinstance(v, Raised) else None
            return v, obs, w.names
        ref = forked(clean)
        if ref is None or isinstance(ref[0], Raised) or not ref[2]:
            out.hit("no_reference")
            return out
        v0, obs0, names = ref
        uniq = sorted(set(names))
        hits, again = [], []
        for shot in spec["shots"]:
            nm = uniq[int(shot["u"] * len(uniq))]
            occ = [i for i, x in enumerate(names) if x == nm]
            k = occ[int(shot["v"] * len(occ))]
            if self.shoot(spec, out, make, test, v0, obs0, names, nm, k, shot["exc"], shot is spec["shots"][-1], again):
                hits.append((nm, k, shot["exc"]))
            if out.viol:
                return out
        out.nontrivial = bool(hits)
        out.state = digest([sp, spec["phase"], hits])
        return out

    def shoot(self, spec, out, make, test, v0, obs0, names, nm, k, exc, last, again):
        from props import collab
        sp = spec["obj"]
        if exc == "native":                              # what this collaborator really raises when it gives up
            exc = "LinAlgError" if "linalg" in nm else "ValueError"
        E = {"InjectedError": InjectedError, "ValueError": ValueError, "LinAlgError": np.linalg.LinAlgError, "TypeError": TypeError,
             "KeyError": KeyError, "MemoryError": MemoryError, "OSError": OSError, "AttributeError": AttributeError,
             "StopIteration": StopIteration}[exc]
        est, fn, op = make()
        W.seed_globals(subseed(spec["seed"], "go"))
        with collab.watch(fail_at=k + 1, exc=E) as w:
            val, e, n, _ = ENGINE.run_single(fn)
        out.instants += n
        out.note(op, "collaborator", nm, "call", k + 1, "of", len(names), "raises", exc, "->", "returned" if e is None else type(e).__name__)
        if not w.fired:
            out.hit("not_reached")
            return False
        out.hit("fault:collaborator_" + exc)
        if e is not None and not isinstance(e, Exception):
            raise e
        if e is None:
            # swallowed: acceptable only if it made no difference at all
            d = same(val, v0) or same(observe(est, sp, W.make_data(spec["data"][0]), [test], spec["seed"]), obs0)
            if d:
                out.fail(self.sig(spec, "%s:%s" % (op, nm)), "%s in %s (call %d of %d) was swallowed during %s and changed the result: %s"
                         % (exc, nm, k + 1, len(names), op, d))
        elif op == "fit" and last:
            # and once the fault is gone, trying again works as if nothing happened
            got = fit_and_observe(sp, spec["data"][0], spec["tests"], spec["how"], spec["seed"], est=est)
            if not again:
                again.append(forked(lambda: fit_and_observe(sp, spec["data"][0], spec["tests"], spec["how"], spec["seed"])))
            d = same(got, again[0])
            if d:
                out.fail(self.sig(spec, "retry:" + nm), "after a failed fit (%s in %s), fitting again differs from a fresh fit: %s" % (exc, nm, d))
        return True
