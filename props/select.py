"""H12: model selection fits every candidate on exactly its own split, with each
sample's own domain, label and weight, and judges it on the rest."""
import pickle

import numpy as np
from sklearn.base import clone
from sklearn.model_selection import (GridSearchCV, ParameterGrid, RandomizedSearchCV, cross_validate)

from props import conc, extras as X
from props.common import brief, gen_fault, outcome_all, run_faulted
from props.hist import ASSUME, REAL, STUBS, HistProp
from sim import world as W
from sim.canon import Raised, digest, outcome, same
from sim.runner import Out, forked, subseed

PIPES = ["deep", "plain", "coral", "reweight", "ot", "labelprop", "bomb", "bomb", "perdomain", "sourceonly", "sub", "nested"]
TAKES_W = ("plain", "coral", "perdomain", "sourceonly", "sub", "nested", "bomb", "deep")
CVS = ["SourceTargetShuffleSplit", "DomainShuffleSplit", "StratifiedDomainShuffleSplit", "LeaveOneDomainOut"]


def arguments(spec, d):
    D = W.make_data(d)
    sd = X.lodo_labels(D["sd"]) if spec["cv"] == "LeaveOneDomainOut" else D["sd"]
    y = D["y_true"].copy()
    if d.get("masked"):
        y[sd < 0] = -1
    p = {"sample_domain": sd}
    if spec["weights"]:
        p["sample_weight"] = D["w"]
    if "SupervisedScorer" in spec["scoring"]:
        p["target_labels"] = D["y_true"]
    if spec["pipe"] == "deep":
        return D["X"].astype(np.float32), y, p
    return D["X"], y, p


class H12(HistProp):
    pid = "H12"
    real, stubs, assumptions = REAL + ["a deep model (skada.deep, skorch, PyTorch)"], STUBS, ASSUME
    needs_torch = True

    def setup(self):
        from props import deep
        deep.DeepProp.setup(self)
    rule = "a run counts when the search completed and at least one score was compared; distinct = (pipeline, splitter, scorers, parameters, history with fault sites, data)"

    def gen(self, r, tier):
        cv = r.choice(CVS)
        base = W.gen_data(r, r.choice(["bin", "bin", "multi"]), multi_ok=r.random() < 0.3)
        base.update(ns=r.choice([16, 20, 27]), nt=r.choice([16, 21, 25]), scale=r.choice([0.5, 1.0]))
        base.pop("dtype", None)
        names = sorted(X.scorers())
        if base.get("masked"):
            names = [n for n in names if n != "SupervisedScorer"]
        else:
            names.remove("CircularValidation")
        pipe = r.choice(PIPES)
        if pipe == "deep":
            base.update(task="bin", d=2)
            names += ["MaNoScorer"] * 3
        if pipe == "bomb":
            names = [n for n in names if n != "ImportanceWeightedScorer"]
        mode = r.choice(["cv", "cv", "grid", "grid", "random"])
        data = [dict(base, seed=r.randrange(1 << 30)) for _ in range(r.choice([1, 2, 2]))]
        return {"kind": "select", "mode": mode, "pipe": pipe, "cv": cv, "ncv": r.choice([2, 3]), "cvseed": r.randrange(50),
                "scoring": sorted(set(r.sample(names, r.choice([1, 2, 2])))), "weights": pipe in TAKES_W and r.random() < 0.5,
                "mod": r.choice([0, 2, 3]), "opt": r.choice([0, 0, 1, 2, 3]), "grid": r.choice([[0.1, 1.0], [0.1, 1.0, 5.0]]), "train": r.random() < 0.3,
                "data": data, "hist": [{"op": r.choice(["search", "search", "split", "score", "fit"]), "d": r.randrange(len(data)), "fault": gen_fault(r, 0.5),
                                        "u": r.randrange(4)} for _ in range(r.choice([0, 1, 1, 2, 3]))],
                "live": r.choice(["same", "same", "clone", "pickle"]), "seed": r.randrange(1 << 30)}

    def shrink(self, spec):
        yield from HistProp.shrink(self, spec)
        for k, v in (("live", "same"), ("weights", False), ("train", False), ("mod", 0), ("opt", 0), ("ncv", 2)):
            if spec[k] != v:
                yield dict(spec, **{k: v})
        if len(spec["scoring"]) > 1:
            for n in spec["scoring"]:
                yield dict(spec, scoring=[n])

    def sig(self, spec, what):
        return "H12:%s:%s:%s" % (spec["mode"], spec["pipe"], what)

    # -- the objects
    def build(self, spec):
        if spec["pipe"] == "deep":
            from props import deepzoo
            est = deepzoo.scoring_net(2, 4, weighted=spec["weights"])
        else:
            est = conc.C03.pipe(None, spec)
        cv = X.splitters()[spec["cv"]](spec["cvseed"], spec["ncv"])
        return est, cv, {n: self.scorer(spec, n) for n in spec["scoring"]}

    def scorer(self, spec, n):
        return X.scorer_with(n, min(spec.get("opt", 0), 2 if n == "PredictionEntropyScorer" else 3), 7)

    def grid(self, spec, est):
        if spec["pipe"] == "deep":
            return {"lr": list(spec["grid"])}
        g = conc.C03.grid_param(None, est, spec["grid"])
        if spec["pipe"] == "bomb":
            g = dict(g, **{[p for p in est.get_params() if p.endswith("__tag")][0]: ["stub", "boom"]})
        return g

    def candidates(self, spec, est):
        g = self.grid(spec, est)
        if spec["mode"] == "random":
            from sklearn.model_selection import ParameterSampler
            n = len(list(ParameterGrid(g)))
            return list(ParameterSampler(g, min(2, n), random_state=spec["cvseed"])) if g else [{}]
        return list(ParameterGrid(g)) if spec["mode"] == "grid" else [{}]

    def searcher(self, spec, est, cv, sc):
        kw = dict(cv=cv, scoring=sc, refit=spec["scoring"][0], error_score=np.nan, return_train_score=spec["train"])
        g = self.grid(spec, est)
        if spec["mode"] == "random" and g:
            return RandomizedSearchCV(est, g, n_iter=min(2, len(list(ParameterGrid(g)))), random_state=spec["cvseed"], **kw)
        return GridSearchCV(est, g if spec["mode"] == "grid" else {}, **kw)

    # -- as the library is used
    def search(self, spec, est, cv, sc, gs, args, probe):
        Xa, y, p = args
        if spec["mode"] == "cv":
            res = cross_validate(est, Xa, y, cv=cv, params=p, scoring=sc, error_score=np.nan, return_train_score=spec["train"],
                                 return_estimator=True, return_indices=True)
            idx = res["indices"]
            out = {k: np.asarray(res[k], dtype=float) for k in res if k.startswith(("test_", "train_"))}
            out["idx"] = [[np.asarray(a) for a in idx["train"]], [np.asarray(a) for a in idx["test"]]]
            out["fitted"] = [answers(e, probe) for e in res["estimator"]]
            return out
        gs.fit(Xa, y, **p)
        r = gs.cv_results_
        out = {"params": [str(sorted(q.items())) for q in r["params"]]}
        for n in spec["scoring"]:
            for side in ("test", "train") if spec["train"] else ("test",):
                out["%s_%s" % (side, n)] = np.array([[r["split%d_%s_%s" % (i, side, n)][k] for i in range(gs.n_splits_)] for k in range(len(r["params"]))], dtype=float)
        out["best"] = int(gs.best_index_)
        out["refit"] = answers(gs.best_estimator_, probe)
        out["final_score"] = outcome(lambda: float(gs.score(Xa, y, **{k: v for k, v in p.items() if k != "sample_weight" and (k != "target_labels" or spec["scoring"][0] == "SupervisedScorer")})))
        return out

    # -- the same by hand
    def by_hand(self, spec, args, probe):
        est, cv, sc = self.build(spec)
        Xa, y, p = args
        sd = p["sample_domain"]
        W.seed_globals(subseed(spec["seed"], "final"))
        splits = [(np.asarray(a), np.asarray(b)) for a, b in cv.split(Xa, y, sd)]

        def fit(q, rows):
            e = clone(est).set_params(**q)
            kw = {"sample_domain": sd[rows]}
            if spec["weights"]:
                kw["sample_weight"] = p["sample_weight"][rows]
            v = outcome(lambda: e.fit(Xa[rows], y[rows], **kw))
            return v if isinstance(v, Raised) else e

        def judge(e, n, rows):
            if isinstance(e, Raised):
                return np.nan
            kw = {"sample_domain": sd[rows]}
            if n == "SupervisedScorer":
                kw["target_labels"] = p["target_labels"][rows]
            # every score is made with a scorer and a model of its own: none of them
            # may depend on what was scored before
            own = self.scorer(spec, n)
            v = outcome(lambda: float(own(pickle.loads(pickle.dumps(e)), Xa[rows], y[rows], **kw)))
            return np.nan if isinstance(v, Raised) else v
        cands = self.candidates(spec, est)
        tests, trains, ests = ({n: [] for n in sc}, {n: [] for n in sc}, [])
        for q in cands:
            for n in sc:
                tests[n].append([])
                trains[n].append([])
            for tr, te in splits:
                e = fit(q, tr)
                ests.append(e)
                for n in sc:
                    tests[n][-1].append(judge(e, n, te))
                for n in sc:
                    if spec["train"]:
                        trains[n][-1].append(judge(e, n, tr))
        if all(isinstance(e, Raised) for e in ests):
            return "no fit succeeds"
        out = {}
        if spec["mode"] == "cv":
            for n in sc:
                out["test_" + n] = np.array(tests[n][0])
                if spec["train"]:
                    out["train_" + n] = np.array(trains[n][0])
            out["idx"] = [[a for a, _ in splits], [b for _, b in splits]]
            out["fitted"] = [answers(e, probe) for e in ests]
            return out
        out["params"] = [str(sorted(q.items())) for q in cands]
        for n in sc:
            out["test_" + n] = np.array(tests[n])
            if spec["train"]:
                out["train_" + n] = np.array(trains[n])
        with np.errstate(all="ignore"):
            m = np.mean(out["test_" + spec["scoring"][0]], axis=1)
        out["means"] = m
        return out, cands

    def run(self, spec):
        out = Out()
        out.hit("mode:" + spec["mode"])
        out.hit("pipe:" + spec["pipe"])
        A = arguments(spec, spec["data"][0])
        probe = (A[0], A[2]["sample_domain"])
        est, cv, sc = self.build(spec)
        gs = self.searcher(spec, est, cv, sc) if spec["mode"] in ("grid", "random") else None
        # earlier uses of the same objects
        for i, st in enumerate(spec["hist"]):
            if spec["pipe"] == "deep" and st["op"] == "fit":
                continue                     # (trains the module it was given, which copies start from: T03)
            B = arguments(spec, spec["data"][st["d"] % len(spec["data"])])
            W.seed_globals(subseed(spec["seed"], "h", i))
            fn = {"search": lambda: self.search(spec, est, cv, sc, gs, B, probe),
                  "split": lambda: [next(it) for it in [iter(cv.split(B[0], B[1], B[2]["sample_domain"]))] for _ in range(1 + st["u"] % 2)],
                  "fit": lambda: est.fit(B[0], B[1], sample_domain=B[2]["sample_domain"]),
                  "score": lambda: [f(clone(est).fit(B[0], B[1], sample_domain=B[2]["sample_domain"]), B[0], B[1], **X.score_kwargs(n, {"sd": B[2]["sample_domain"], "y_true": B[2].get("target_labels")}))
                                    for n, f in sorted(sc.items())]}[st["op"]]
            v = run_faulted(fn, st["fault"], out, st["op"]) if st.get("fault") else outcome_all(fn, out)
            out.hit("step:" + st["op"])
            out.note(i, st["op"], brief(v, 60) if isinstance(v, Raised) else "ok")
        if spec["live"] == "pickle":
            est, cv, sc, gs = pickle.loads(pickle.dumps((est, cv, sc, gs)))
            out.hit("fault:process-restart")
        elif spec["live"] == "clone" and gs is not None:
            gs = clone(gs)
        want = forked(lambda: self.by_hand(spec, A, probe))
        W.seed_globals(subseed(spec["seed"], "final"))
        got = outcome_all(lambda: self.search(spec, est, cv, sc, gs, A, probe), out)
        desc = "%s of %s with %s and %s%s" % (spec["mode"], spec["pipe"], spec["cv"], spec["scoring"], ", weighted" if spec["weights"] else "")
        out.state = digest([{k: spec[k] for k in spec if k != "_run"}, out.log])
        if want == "no fit succeeds":
            out.hit("no fit succeeds")
            if not isinstance(got, Raised):
                out.fail(self.sig(spec, "no-fit"), "%s completed although no candidate could be fitted" % desc)
            return out
        if isinstance(got, Raised):
            if spec["mode"] != "cv" and not np.isfinite(want[0]["means"]).any():
                out.hit("no candidate scored")
                return out
            if spec["mode"] != "cv" and spec["pipe"] == "bomb" and spec["mod"]:
                out.hit("fault:refit_failure")           # the best candidate fails on all the data: reported, as it should be
                return out
            out.fail(self.sig(spec, "fails"), "%s raised %s although its parts work one by one\nhistory: %s" % (desc, brief(got, 300), "; ".join(out.log)))
            return out
        tr_te = got.get("idx")
        if tr_te:
            for a, b in zip(*tr_te):
                both = np.concatenate([a, b])
                if len(np.unique(both)) != len(both) or both.min() < 0 or both.max() >= len(A[1]):
                    out.fail(self.sig(spec, "overlap"), "%s: a sample both trains and judges, or is used twice" % desc)
                    return out
        if spec["mode"] != "cv":
            want, cands = want
            m = want.pop("means")
            best, refit, fs = got.pop("best"), got.pop("refit"), got.pop("final_score")
            d = same(got, want)
            if not d and np.isfinite(m).any() and not m[best] >= np.nanmax(m) - 1e-9:
                d = "candidate %d was chosen, with a mean score of %r; the best is %r" % (best, m[best], np.nanmax(m))
            if not d and spec["pipe"] != "deep":            # (a deep model's refit draws from the stream where the search left it)
                def again():
                    e0, _, s0 = self.build(spec)
                    e = e0.set_params(**cands[best])
                    kw = {"sample_domain": A[2]["sample_domain"]}
                    if spec["weights"]:
                        kw["sample_weight"] = A[2]["sample_weight"]
                    W.seed_globals(1)
                    e.fit(A[0], A[1], **kw)
                    n = spec["scoring"][0]
                    kw = {"sample_domain": A[2]["sample_domain"]}
                    if n == "SupervisedScorer":
                        kw["target_labels"] = A[2]["target_labels"]
                    return answers(e, probe), outcome(lambda: float(s0[n](e, A[0], A[1], **kw)))
                r2, s2 = forked(again)
                d = same(refit, r2)
                d = "the refitted best candidate: %s" % d if d else None
                if not d and not isinstance(s2, Raised):
                    d = same(fs, s2)
                    d = "its final score: %s" % d if d else None
        else:
            d = same(got, want)
        out.nontrivial = True
        if d:
            out.fail(self.sig(spec, "value"), "%s: the search and the same steps done by hand differ: %s\nhistory: %s" % (desc, d, "; ".join(out.log)))
        return out


def answers(e, probe):
    if isinstance(e, Raised) or e is None or isinstance(e, float):
        return "raised"
    Xp, sd = probe
    v = outcome(lambda: e.predict(Xp, sample_domain=sd, allow_source=True))
    return "raised" if isinstance(v, Raised) else np.asarray(v)
