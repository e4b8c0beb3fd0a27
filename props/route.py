"""Every sample keeps its own row, domain, label and weight (H10), and classes
keep their names (H11), after any history of fits, failures and interrupts."""
import hashlib
import pickle
import random
import warnings

import numpy as np
from sklearn.base import BaseEstimator, clone

from .common import (ENGINE, InjectedError, Out, Raised, StepBudgetExceeded, W, brief, digest, forked, gen_fault, outcome,
                     outcome_all, rng, run_faulted, same, subseed)
from . import extras as X_
from .hist import ASSUME, HistProp, REAL, as_test, do_step, fit_and_observe, gen_dataset_family, gen_hist, observe


# ------------------------------------------------- recording collaborators --
def sig_of(rows):
    """A number that identifies what an estimator was trained on: which samples,
    in which order, with which features, labels and weights."""
    h = hashlib.sha1()
    for i, f, y, w in rows:
        h.update(("%d|%.9f|%s|%s;" % (int(i), f, "-" if y is None else "m" if y != y or y == -1 else repr(float(y)),
                                      "-" if w is None else "%.9f" % w)).encode())
    return int.from_bytes(h.digest()[:4], "big") / 2.0 ** 32


def rows_of(X, y, w):
    return [(X[j, 0], X[j, 1], None if y is None else y[j], None if w is None else w[j]) for j in range(len(X))]


class _Rec(BaseEstimator):
    def __init__(self, tag=0, whole=False):
        self.tag = tag
        self.whole = whole          # answers with integers

    def _learn(self, X, y, w):
        ENGINE.point("rec.fit")
        W.fault_seam("rec.fit")
        X = np.asarray(X)
        for name, a in (("y", y), ("sample_weight", w)):
            if a is not None and len(a) != len(X):
                raise ValueError("%s has %d entries for %d samples" % (name, len(a), len(X)))
        if not len(X):
            raise ValueError("no samples")
        self.sig_ = sig_of(rows_of(X, y, w))
        return self


class RecTransformer(_Rec):
    def fit(self, X, y=None):
        return self._learn(X, y, None)

    def transform(self, X):
        ENGINE.point("rec.transform")
        X = np.array(X, dtype=float)
        X[:, 1] = X[:, 1] * 0.5 + self.sig_ + self.tag
        return X


class RecTransformer2(RecTransformer):
    def fit_transform(self, X, y=None):
        return self.fit(X, y).transform(X)


class RecTransformerW(_Rec):
    """A transformer that also takes weights."""
    __metadata_request__fit = {"sample_weight": True}

    def fit(self, X, y=None, sample_weight=None):
        return self._learn(X, y, sample_weight)

    def transform(self, X):
        return RecTransformer.transform(self, X)

    def fit_transform(self, X, y=None, sample_weight=None):
        return self.fit(X, y, sample_weight).transform(X)


class RecEstimator(_Rec):
    """A plain estimator: answers with the identity of each row it is asked
    about and with what it was trained on."""
    __metadata_request__fit = {"sample_weight": True}

    def fit(self, X, y=None, sample_weight=None):
        return self._learn(X, y, sample_weight)

    def predict(self, X):
        ENGINE.point("rec.predict")
        out = X[:, 0] * 1000.0 + (self.sig_ + X[:, 1])
        return np.floor(out).astype(np.int64) if self.whole else out

    def predict_proba(self, X):
        ENGINE.point("rec.predict")
        return np.c_[X[:, 0], X[:, 1], np.full(len(X), self.sig_)]


def _adapters():
    from skada.base import BaseAdapter
    from skada.utils import check_X_domain

    class WeightingAdapter(BaseAdapter):
        """Hands out a weight for every sample."""

        def fit_transform(self, X, y=None, sample_domain=None, **params):
            ENGINE.point("wadapter")
            W.fault_seam("wadapter")
            X, sample_domain = check_X_domain(X, sample_domain)
            self.fitted_ = True
            return X, {"sample_weight": weight_of(X[:, 0])}

    class LabellingAdapter(BaseAdapter):
        """Hands out labels for the target samples and hides the others."""

        def __init__(self):
            super().__init__()
            self.predicts_target_labels = True

        def fit_transform(self, X, y=None, sample_domain=None, **params):
            ENGINE.point("ladapter")
            W.fault_seam("ladapter")
            X, sample_domain = check_X_domain(X, sample_domain)
            self.fitted_ = True
            return X, label_of(X[:, 0], np.asarray(sample_domain) < 0), {}

    return WeightingAdapter, LabellingAdapter


def weight_of(ids):
    return np.asarray(ids, dtype=float) * 0.01 + 0.5


def label_of(ids, target):
    return np.where(target, np.asarray(ids).astype(np.int64) % 2, -1)


# ---------------------------------------------------------- data and model --
def make_rows(d):
    """The samples as a caller would pass them: X, y, sample_domain, weights."""
    g = np.random.RandomState(d["seed"])
    X, y, sd = [], [], []
    i = d["base"]
    for dom, n in d["doms"]:
        for _ in range(n):
            X.append([i, 0.0, g.rand()])
            sd.append(dom)
            y.append(float(g.randn()) if d["reg"] else int(g.randint(3)))
            i += 1
    X, sd = np.array(X), np.array(sd)
    y = np.array(y, dtype=np.float64 if d["reg"] else d.get("ydt", "int64"))
    for lab_mask, side in ((d.get("mask_t"), sd < 0), (d.get("mask_s"), sd >= 0)):
        if lab_mask:
            m = side & (g.rand(len(y)) < lab_mask)
            if m.sum() < len(y):
                y[m] = np.nan if d["reg"] else -1
    if not d["reg"]:
        keep = np.flatnonzero(y != -1)[:2]                # at least two classes
        y[keep] = np.arange(len(keep))
    else:
        keep = np.flatnonzero(~np.isnan(y))[:1]
        y[keep] = 0.123456
    if d["order"] == "shuffle":
        p = g.permutation(len(y))
    elif d["order"] == "interleave":
        p = np.argsort(g.rand(len(y)), kind="stable")
        q = np.empty(len(y), dtype=int)
        for dom in np.unique(sd):
            q[np.flatnonzero(sd[p] == dom)] = np.flatnonzero(sd == dom)
        p = q
    elif d["order"] == "rev":
        p = np.arange(len(y))[::-1]
    else:
        p = np.arange(len(y))
    X = X[p]
    if d.get("F"):
        X = np.asfortranarray(X)
    return {"X": X, "y": y[p], "sd": sd[p], "w": weight_of(X[:, 0]) * 2}


class RecAll(BaseEstimator):
    """Keeps everything it was trained on."""
    __metadata_request__fit = {"sample_domain": True, "sample_weight": True}

    def fit(self, X, y=None, sample_domain=None, sample_weight=None):
        ENGINE.point("rec.fit")
        W.fault_seam("rec.fit")
        self.got_ = (np.array(X), None if y is None else np.array(y), np.array(sample_domain), None if sample_weight is None else np.array(sample_weight))
        return self

    def predict(self, X):
        return np.asarray(X)[:, 0]


class Empty(Exception):
    """The model says: this operation cannot succeed."""


class Model:
    """What a pipeline of selectors over recording estimators has to do."""

    def __init__(self, steps):
        self.steps = steps
        self.state = None

    def groups(self, sel, sds):
        if sel in ("Shared", "SelectSource", "SelectTarget"):
            return [("all", np.arange(len(sds)))]
        if sel == "PerDomain":
            return [(int(d), np.flatnonzero(sds == d)) for d in sorted(set(sds.tolist()))]
        return [(n, ix) for n, ix in (("source", np.flatnonzero(sds >= 0)), ("target", np.flatnonzero(sds < 0)))]

    def fit(self, D, use_w):
        ids, f, y, sd = D["X"][:, 0].copy(), D["X"][:, 1].copy(), D["y"].astype(float), D["sd"].copy()
        w = D["w"].copy() if use_w else None
        state = []
        for k, st in enumerate(self.steps):
            if st["t"] == "wadapter":
                w = weight_of(ids)
                state.append(None)
                continue
            if st["t"] == "ladapter":
                y = label_of(ids, sd < 0).astype(float)
                state.append(None)
                continue
            sel, last = st["sel"], st["t"] == "est"
            ys = y.copy()
            if st["mask"]:
                ys[sd < 0] = -1.0
            idx = np.arange(len(ids))
            if sel == "SelectSource":
                idx = np.flatnonzero(sd >= 0)
            elif sel == "SelectTarget":
                idx = np.flatnonzero(sd < 0)
            ids, f, y, ys, sd = ids[idx], f[idx], y[idx], ys[idx], sd[idx]
            w = None if w is None else w[idx]
            if last:
                keep = np.flatnonzero(~((ys == -1) | np.isnan(ys)))
                if sel == "SelectSourceTarget" and any(not len(np.intersect1d(ix, keep)) for _, ix in self.groups(sel, sd)):
                    raise Empty("a side without labelled samples")
                ids, f, ys, sd = ids[keep], f[keep], ys[keep], sd[keep]
                w = None if w is None else w[keep]
            takes_w = st["t"] in ("est", "trw")
            sigs = {}
            nf = f.copy()
            gs = self.groups(sel, sd)
            if (not len(ids) and sel != "PerDomain") or (sel == "SelectSourceTarget" and any(not len(ix) for _, ix in gs)):
                raise Empty("nothing to train on")
            for name, ix in gs:
                s = sig_of([(ids[j], f[j], ys[j], w[j] if w is not None and takes_w else None) for j in ix])
                sigs[name] = s
                nf[ix] = f[ix] * 0.5 + s + st["tag"]
            state.append(sigs)
            if not last:
                f = nf
        self.state = state

    def eval(self, op, D):
        ids, f, sd = D["X"][:, 0].copy(), D["X"][:, 1].copy(), D["sd"]
        for st, sigs in zip(self.steps, self.state):
            if sigs is None:
                continue
            s = np.empty(len(ids))
            for name, ix in self.groups(st["sel"], sd):
                if not len(ix):
                    continue
                if name not in sigs:
                    raise Empty("domain %r was not trained on" % (name,))
                s[ix] = sigs[name]
            if st["t"] != "est":
                f = f * 0.5 + s + st["tag"]
            elif op == "predict":
                v = ids * 1000.0 + (s + f)
                for side, m in (("source", sd >= 0), ("target", sd < 0)):
                    if st.get("whole") in (side, "both"):
                        v[m] = np.floor(v[m])
                return v
            else:
                return np.c_[ids, f, s]
        return np.c_[ids, f, D["X"][:, 2]]


def build_rec(steps, nosel):
    from skada import PerDomain, SelectSource, SelectSourceTarget, SelectTarget, Shared, make_da_pipeline
    WeightingAdapter, LabellingAdapter = ADAPTERS
    out = []
    for st in steps:
        if st["t"] == "wadapter":
            out.append(WeightingAdapter())
            continue
        if st["t"] == "ladapter":
            out.append(LabellingAdapter())
            continue
        e = {"tr": RecTransformer, "tr2": RecTransformer2, "trw": RecTransformerW, "est": RecEstimator}[st["t"]](tag=st["tag"])
        cls = {"Shared": Shared, "PerDomain": PerDomain, "SelectSource": SelectSource, "SelectTarget": SelectTarget,
               "SelectSourceTarget": SelectSourceTarget}[st["sel"]]
        if st.get("bare"):
            out.append(e)
        elif st["sel"] == "SelectSourceTarget":
            if st.get("whole"):
                out.append(cls(clone(e).set_params(whole=st["whole"] == "source"), clone(e).set_params(whole=st["whole"] == "target")))
            else:
                out.append(cls(e, clone(e)) if st.get("two") else cls(e))
        elif st["sel"] == "SelectTarget":
            out.append(cls(e))
        else:
            out.append(cls(e, mask_target_labels=st["mask"]))
    if nosel:
        return out[0]
    return make_da_pipeline(*out)


ADAPTERS = None


class H10(HistProp):
    pid = "H10"
    real = REAL
    stubs = ["the estimators, transformers and two adapters under the selectors record what they are given (in the 'route' runs); "
             "the 'arrival' runs use the real adapters and estimators"]
    assumptions = ASSUME
    rule = "a run counts when a fit completed and at least one evaluation was compared row by row; distinct = (pipeline, history with fault sites, arrangement of the samples)"

    def setup(self):
        global ADAPTERS
        W.setup_process()
        if ADAPTERS is None:
            ADAPTERS = _adapters()
            for c in ADAPTERS:
                globals()[c.__name__] = c
                c.__qualname__ = c.__name__

    # -- generation
    def gen(self, r, tier):
        u = r.random()
        return (self.gen_arrival(r) if u < 0.34 else gen_scoring(r, "score") if u < 0.54 else self.gen_split(r) if u < 0.58
                else self.gen_subsample(r) if u < 0.64 else self.gen_route(r))

    def gen_step(self, r, final, k):
        sel = r.choice(["Shared", "PerDomain", "PerDomain", "SelectSource", "SelectTarget", "SelectSourceTarget"])
        st = {"t": "est" if final else r.choice(["tr", "tr2", "tr2", "trw"]), "sel": sel, "tag": k + 1,
              "mask": False if sel in ("SelectTarget", "SelectSourceTarget") else r.random() < 0.6}
        if sel == "Shared" and r.random() < 0.6:
            st["bare"], st["mask"] = True, True
        if sel == "SelectSourceTarget" and r.random() < 0.5:
            st["two"] = True
            if final and r.random() < 0.6:
                st["whole"] = r.choice(["source", "target"])
        return st

    def gen_route(self, r):
        n = r.choice([1, 1, 2, 2, 3])
        steps = [self.gen_step(r, k == n - 1 and r.random() < 0.85, k) for k in range(n)]
        nosel = n == 1 and r.random() < 0.4 and not steps[0].get("bare")
        # filtering steps shorten the data; weights given by the caller are not shortened with it
        use_w = r.random() < 0.4
        if not nosel and steps[-1]["t"] == "est" and r.random() < 0.3:
            t = r.choice(["wadapter", "ladapter"])
            steps.insert(r.randrange(len(steps)), {"t": t})
            if t == "wadapter":
                use_w = False
        if any(st.get("sel") in ("SelectSource", "SelectTarget") for st in steps[:-1]):
            use_w = False
        labelled = target = False      # labels an earlier step hands on are used as they are
        for st in steps:
            labelled = labelled or st["t"] == "ladapter"
            if target:
                st.pop("bare", None)
            if target or labelled:
                st["mask"] = False
            target = target or st.get("sel") == "SelectTarget"
        if steps[-1]["t"] != "est" and not (nosel and steps[-1]["t"] == "trw"):
            use_w = False
        if use_w:          # weights given by the caller go to the last step only
            for st in steps[:-1]:
                st["t"] = "tr2" if st["t"] == "trw" else st["t"]
        data = [self.gen_rows(r, 1000 * k) for k in range(3)]
        hist = []
        for k in range(r.choice([1, 2, 2, 3, 4])):
            op = "fit" if k == 0 else r.choice(["fit", "fit", "predict", "predict_proba", "clone", "pickle"])
            st = {"op": op, "d": r.randrange(3)}
            f = gen_fault(r, 0.35)
            if f and op in ("fit", "predict", "predict_proba"):
                st["fault"] = f
            hist.append(st)
        return {"kind": "route", "steps": steps, "nosel": nosel, "use_w": use_w, "data": data, "hist": hist, "final": r.randrange(3),
                "evals": [self.gen_eval(r, data) for _ in range(r.choice([2, 3, 4]))], "seed": r.randrange(1 << 30),
                "how": r.choice(["fit", "fit", "fit_transform"])}

    def gen_rows(self, r, base):
        doms = r.choice([[(1, 5), (-2, 4)], [(1, 5), (2, 4), (-3, 6)], [(2, 4), (1, 6), (-1, 3), (-4, 5)], [(1, 6), (-2, 3), (-1, 4)],
                         [(0, 4), (-3, 5)], [(7, 3), (3, 5), (-5, 4)]])
        d = {"seed": r.randrange(1 << 30), "base": base, "doms": doms, "reg": r.random() < 0.3,
             "order": r.choice(["block", "interleave", "interleave", "shuffle", "rev"])}
        if r.random() < 0.3:
            d["doms"] = doms[::-1]
        if r.random() < 0.35:
            d["mask_t"] = r.choice([0.3, 0.6, 1.0])
        if r.random() < 0.12:
            d["mask_s"] = 0.3
        if r.random() < 0.2:
            d["F"] = True
        if r.random() < 0.2:
            d["ydt"] = r.choice(["int32", "int8", "float64"])
        if not d["reg"] and not d.get("mask_t") and not d.get("mask_s") and r.random() < 0.25:
            d["ydt"] = r.choice(["uint8", "bool"])
        return d

    def gen_eval(self, r, data):
        k = r.randrange(3)
        d = dict(data[k], seed=r.randrange(1 << 30), order=r.choice(["block", "interleave", "shuffle", "rev"]), base=5000 + r.randrange(9) * 10)
        d["doms"] = [(a, r.choice([1, 2, n, n])) for a, n in d["doms"] if r.random() < 0.85] or d["doms"]
        return {"op": r.choice(["predict", "predict", "predict_proba"]), "d": d, "of": k, "fault": gen_fault(r, 0.15)}

    # -- real objects under another arrival order of the domains' samples
    ONE_EACH = ("TCA", "TJM", "KLIEPReweight", "NearestNeighborReweight")          # take the samples of all sources (targets) in one go, in their order of arrival
    SKIP = ("Subsampler", "DomainSubsampler", "StratDomainSubsampler")

    def gen_arrival(self, r):
        for _ in range(200):
            sp, tk = W.gen_object(r, ("adapter", "adapter", "pipe", "sel", "est"))
            names = [s["name"] for s in sp.get("steps", [sp])]
            # (splits of a tree are decided by ties that rounding errors of the weights resolve)
            if set(names) & {"TCA", "TJM"} and sp["kind"] != "adapter":      # eigenvectors magnify what an earlier step rounds
                continue
            if not set(names) & set(self.SKIP) and "tree" not in W.obj_name(sp) and "@tree" not in repr(sp):
                break
        for st in sp.get("steps", [sp]):
            if st["name"] == "OTLabelProp" and not st["cfg"].get("reg"):
                st["cfg"] = dict(st["cfg"], n_iter_max=100000)      # solved to the end, else the plan depends on the order
        single = sp["kind"] != "adapter"
        d = W.gen_data(r, tk, multi_ok=W.obj_multi_ok(sp) and not single and not set(names) & set(self.ONE_EACH))
        if W.needs_target_labels(sp):
            d.pop("masked", None)
        other = dict(d, seed=r.randrange(1 << 30), ns=r.choice([8, 12, 17]))
        return {"kind": "arrival", "obj": sp, "task": tk, "data": [d, other], "hist": gen_hist(r, r.choice([0, 0, 1, 2]), 2, 0.4),
                "tests": [as_test(d, r)], "order": r.randrange(1 << 30), "how": r.choice(["fit", "fit_transform"]), "seed": r.randrange(1 << 30),
                "rename": r.choice([None, "zero", "far", "pm"])}

    def shrink(self, spec):
        if spec["kind"] in ("arrival", "score"):
            if spec.get("rename"):
                yield dict(spec, rename=None)
            if spec["order"] is not None:
                yield dict(spec, order=None)
        if spec["kind"] == "arrival":
            yield from HistProp.shrink(self, spec)
            return
        if spec["kind"] == "score":
            yield from shrink_scoring(spec)
            return
        if spec["kind"] == "subsample":
            for i in range(len(spec["hist"]) - 1):
                yield dict(spec, hist=spec["hist"][:i] + spec["hist"][i + 1:])
            if spec["pipe"]:
                yield dict(spec, pipe=False)
            return
        if spec["kind"] == "split":
            for i in range(len(spec["arrays"])):
                if len(spec["arrays"]) > 1:
                    yield dict(spec, arrays=spec["arrays"][:i] + spec["arrays"][i + 1:])
            return
        for key in ("hist", "evals"):
            h = spec[key]
            for i in range(len(h)):
                if key == "evals" and len(h) == 1:
                    continue
                yield dict(spec, **{key: h[:i] + h[i + 1:]})
                if h[i].get("fault"):
                    yield dict(spec, **{key: h[:i] + [dict(h[i], fault=None)] + h[i + 1:]})
        for i in range(len(spec["steps"])):
            if len(spec["steps"]) > 1 and spec["steps"][i]["t"] != "est":
                yield dict(spec, steps=spec["steps"][:i] + spec["steps"][i + 1:])
        if spec["use_w"]:
            yield dict(spec, use_w=False)
        for k, d in enumerate(spec["data"]):
            for key, v in (("order", "block"), ("mask_t", None), ("mask_s", None), ("F", False), ("reg", False), ("ydt", "int64")):
                if d.get(key, v) != v:
                    yield dict(spec, data=spec["data"][:k] + [dict(d, **{key: v})] + spec["data"][k + 1:])
            if d["doms"] != [(1, 3), (-2, 3)]:
                yield dict(spec, data=spec["data"][:k] + [dict(d, doms=[(1, 3), (-2, 3)])] + spec["data"][k + 1:])

    def sig(self, spec, what):
        if spec["kind"] == "arrival":
            return HistProp.sig(self, spec, what)
        if spec["kind"] == "score":
            return "H10:%s:%s" % (spec["scorer"], what)
        if spec["kind"] == "split":
            return "H10:split:%s" % what
        if spec["kind"] == "subsample":
            return "H10:%s:%s" % (spec["name"], what)
        return "H10:%s:%s" % ("+".join(s.get("sel", s["t"]) + ("" if s["t"] == "est" else "." + s["t"]) for s in spec["steps"]), what)

    def run(self, spec):
        return {"arrival": self.run_arrival, "route": self.run_route, "score": self.run_score, "split": self.run_split,
                "subsample": self.run_subsample}[spec["kind"]](spec)

    # -- splitting by domain and merging back
    def gen_split(self, r):
        d = self.gen_rows(r, 0)
        arrays = [{"cols": r.choice([0, 1, 2, 5]), "dt": r.choice(["float64", "float64", "float32", "int64", "int32", "nan"]),
                   "tdt": r.choice([None, None, "float64"])} for _ in range(r.choice([1, 2, 3]))]
        return {"kind": "split", "rows": d, "arrays": arrays, "none": r.random() < 0.2, "seed": r.randrange(1 << 30)}

    def run_split(self, spec):
        from skada.utils import (extract_domains_indices, extract_source_indices, per_domain_split, source_target_merge,
                                 source_target_split)
        out = Out()
        sd = make_rows(spec["rows"])["sd"]
        g = np.random.RandomState(spec["seed"])
        full, pairs = [], []
        s = np.flatnonzero(sd >= 0)
        t = np.flatnonzero(sd < 0)
        for a in spec["arrays"]:
            shape = (len(sd), a["cols"]) if a["cols"] else (len(sd),)
            v = g.randn(*shape) * 50
            if a["dt"] == "nan":
                v[g.rand(*shape) < 0.3] = np.nan
            elif a["dt"].startswith("int"):
                v = np.floor(v)
            full.append(v.astype("float64" if a["dt"] == "nan" else a["dt"]))
        got = source_target_split(*(full + [None] * spec["none"]), sample_domain=sd)
        out.hit("op:split")
        for i, v in enumerate(full):
            for side, ix, w in (("source", s, got[2 * i]), ("target", t, got[2 * i + 1])):
                if not np.array_equal(w, v[ix], equal_nan=True):
                    out.fail(self.sig(spec, "split"), "source_target_split: the %s rows of array %d are not its own rows in order" % (side, i))
                    return out
        if spec["none"] and (got[-1] is not None or got[-2] is not None):
            out.fail(self.sig(spec, "none"), "source_target_split: None was not split into None and None")
            return out
        want = []
        for a, v in zip(spec["arrays"], full):
            S, T = v[s], v[t]
            if a["tdt"]:
                T = T.astype("float64") + 0.25
            w = np.zeros(v.shape)
            w[s], w[t] = S, T
            want.append(w)
            pairs += [S, T]
        if len(s) and len(t):
            res = source_target_merge(*pairs, sample_domain=sd)
            for i, w in enumerate(want):
                if res[i].shape != w.shape or not np.array_equal(res[i].astype(float), w, equal_nan=True):
                    out.fail(self.sig(spec, "merge"), "source_target_merge: array %d (%s with %s targets) is not, row by row, what was merged" % (i, pairs[2 * i].dtype, pairs[2 * i + 1].dtype))
                    return out
            if not np.array_equal(res[-1], sd):
                out.fail(self.sig(spec, "domains"), "source_target_merge changed the domain labels")
                return out
            out.hit("op:merge")
        S, T = per_domain_split(*full, sample_domain=sd)
        idx = extract_domains_indices(sd)
        for dom in np.unique(sd):
            rows = np.flatnonzero(sd == dom)
            have = (S if dom >= 0 else T).get(dom)
            if have is None or not np.array_equal(idx[dom], rows) or not all(np.array_equal(h, v[rows], equal_nan=True) for h, v in zip(have, full)):
                out.fail(self.sig(spec, "per-domain"), "per_domain_split: domain %d does not get exactly its own rows" % dom)
                return out
        if len(S) + len(T) != len(np.unique(sd)) or not np.array_equal(np.flatnonzero(extract_source_indices(sd)), s):
            out.fail(self.sig(spec, "domains"), "wrong set of domains")
        out.nontrivial = True
        out.state = digest(spec)
        return out

    # -- subsampling
    def gen_subsample(self, r):
        data = [dict(self.gen_rows(r, 1000 * k), mask_s=None) for k in range(2)]
        for d in data:
            d["doms"] = [(a, n + r.choice([2, 6])) for a, n in d["doms"]]
        pipe = r.random() < 0.4
        return {"kind": "subsample", "name": r.choice(["Subsampler", "DomainSubsampler", "DomainSubsampler", "StratifiedDomainSubsampler"]),
                "size": r.choice([3, 5, 7, 9, 0.4, 0.7, 500]), "rs": r.choice([0, 1, 7, None]), "pipe": pipe, "w": not pipe and r.random() < 0.7,
                "data": data, "seed": r.randrange(1 << 30),
                "hist": [{"d": r.randrange(2), "fault": gen_fault(r, 0.25)} for _ in range(r.choice([0, 1, 2]))] + [{"d": r.randrange(2), "fault": None}]}

    def run_subsample(self, spec):
        from skada import make_da_pipeline, transformers as T
        out = Out()
        sub = getattr(T, spec["name"])(train_size=spec["size"], random_state=spec["rs"])
        est = make_da_pipeline(sub, RecAll()) if spec["pipe"] else sub
        Ds = [make_rows(d) for d in spec["data"]]
        W.seed_globals(spec["seed"])
        for st in spec["hist"]:
            D = Ds[st["d"]]
            y = D["y"].copy()

            def fn():
                if spec["pipe"]:
                    return est.fit(D["X"], y, sample_domain=D["sd"])[-1].get_estimator().got_
                X, yy, par = est.fit_transform(D["X"], y, sample_domain=D["sd"], **({"sample_weight": D["w"]} if spec["w"] else {}))
                return X, yy, par["sample_domain"], par.get("sample_weight")
            v = run_faulted(fn, st["fault"], out, "fit") if st["fault"] else outcome_all(fn, out)
            out.hit("op:subsample")
            out.note("subsample data", st["d"], "->", brief(v, 60) if isinstance(v, Raised) else "%d of %d rows" % (len(v[0]), len(D["sd"])))
            if st["fault"]:
                continue
            if isinstance(v, Raised):
                if spec["name"] == "Subsampler" or spec["size"] == 500:
                    out.fail(self.sig(spec, "fails"), "subsampling raised %s" % brief(v, 200))
                    return out
                continue                      # too few samples of a domain or class to stratify
            X, yy, sd, w = v
            n = len(D["sd"])
            size = n if spec["size"] >= n else spec["size"] if spec["size"] >= 1 else int(spec["size"] * n)
            pos = {int(i): j for j, i in enumerate(D["X"][:, 0])}
            rows = [pos.get(int(i), -1) for i in X[:, 0]]
            bad = None
            if len(rows) != size or -1 in rows or len(set(rows)) != len(rows):
                bad = "asked to keep %s of %d samples it returned rows %s" % (spec["size"], n, rows)
            elif not np.array_equal(X, D["X"][rows]) or not np.array_equal(sd, D["sd"][rows]):
                bad = "kept samples do not carry their own row and domain"
            elif spec["w"] and (w is None or not np.array_equal(w, D["w"][rows])):
                bad = "kept samples do not carry their own weight: %s, should be %s" % (brief(w, 80), brief(D["w"][rows], 80))
            else:
                want = D["y"].astype(float)[rows]
                if spec["pipe"]:                      # the pipeline hides the target labels
                    want = np.where(sd < 0, np.nan if spec["data"][st["d"]]["reg"] else -1, want)
                if yy is None or not np.array_equal(np.asarray(yy, dtype=float), want, equal_nan=True):
                    bad = "kept samples do not carry their own label: %s, should be %s" % (brief(yy, 80), brief(want, 80))
            if not bad and spec["name"] == "DomainSubsampler" and size < n:
                for dom in np.unique(D["sd"]):
                    share = size * np.mean(D["sd"] == dom)
                    if abs(np.sum(sd == dom) - share) >= 1 + 1e-9:
                        bad = "domain %d keeps %d samples, its share is %.2f" % (dom, np.sum(sd == dom), share)
            if bad:
                out.fail(self.sig(spec, "rows"), "%s: %s\nlog: %s" % (spec["name"], bad, "; ".join(out.log)))
                return out
            out.nontrivial = True
        out.state = digest([spec["name"], spec["size"], spec["pipe"], spec["data"], out.log])
        return out

    def run_score(self, spec):
        out = Out()
        sc = make_scorer(spec)
        D = scoring_data(spec["data"][-1])
        est = X_.scoring_pipe(spec["est"])
        W.seed_globals(spec["seed"])
        est.fit(D["X"], D["y"].copy(), sample_domain=D["sd"])
        est2 = est
        if spec.get("rename"):
            est2 = X_.scoring_pipe(spec["est"])
            W.seed_globals(spec["seed"])
            est2.fit(D["X"], D["y"].copy(), sample_domain=renamed(D, spec)["sd"])
        order = np.arange(len(D["sd"])) if spec["order"] is None else np.random.RandomState(spec["order"]).permutation(len(D["sd"]))
        P = renamed(permuted(D, order), spec)
        out.hit("names:%s" % spec.get("rename"))
        with_reference = {"DeepEmbeddedValidation": ref_dev, "MixValScorer": ref_mixval, "MixValScorerInter": ref_mixval,
                          "ImportanceWeightedScorer": ref_iw, "SupervisedScorer": ref_supervised}.get(spec["scorer"])
        if with_reference:
            ref = outcome(lambda: with_reference(sc, est2, P))
        else:
            ref = forked(lambda: outcome(lambda: call_scorer(make_scorer(spec), spec, est, D)))
        score_history(sc, spec, out)
        got = outcome_all(lambda: call_scorer(sc, spec, est2, P), out)
        out.hit("op:score_" + spec["scorer"])
        out.note("score ->", brief(got, 60))
        out.nontrivial = not isinstance(ref, Raised)
        out.state = digest([spec["scorer"], spec["est"], spec["data"], spec["order"], out.log])
        if isinstance(ref, Raised) or isinstance(got, Raised):
            if isinstance(ref, Raised) != isinstance(got, Raised):
                out.fail(self.sig(spec, "fails"), "scoring fails or succeeds depending on the order of the samples or the names of the domains: %s / %s" % (brief(ref, 200), brief(got, 200)))
            return out
        if isinstance(ref, np.ndarray) and not with_reference:          # one entropy per target sample and class
            t = np.flatnonzero(D["sd"] < 0)
            pos = np.empty(len(order), dtype=int)
            pos[t] = np.arange(len(t))
            ref = ref[pos[order[P["sd"] < 0]]]
        tol = 0.12 if spec["scorer"] == "CircularValidation" and spec["order"] is not None else 1e-6 * (1 + np.nanmax(np.abs(ref)))
        if np.shape(got) != np.shape(ref) or not np.allclose(got, ref, rtol=0, atol=tol, equal_nan=True):
            out.fail(self.sig(spec, "value"), "%s of %s: samples given in another order, or domains under other names, are not scored each with its own label, weight and prediction: %s, should be %s\nlog: %s"
                     % (spec["scorer"], spec["est"], brief(got, 80), brief(ref, 80), "; ".join(out.log)))
        return out

    # -- execution
    def call(self, est, spec, op, D, how="fit"):
        kw = {"sample_domain": D["sd"]}
        if op == "fit":
            if spec["use_w"]:
                kw["sample_weight"] = D["w"]
            if how == "fit_transform" and hasattr(est, "fit_transform") and spec["steps"][-1]["t"] not in ("est",):
                return est.fit_transform(D["X"], D["y"], **kw)
            return est.fit(D["X"], D["y"], **kw)
        if not spec["nosel"] and op != "transform":
            kw["allow_source"] = True
        return getattr(est, op)(D["X"], **kw)

    def op_for(self, spec, op):
        return op if spec["steps"][-1]["t"] == "est" else "transform"

    def run_route(self, spec):
        out = Out()
        est = build_rec(spec["steps"], spec["nosel"])
        model, cur = Model(spec["steps"]), None
        Ds = [make_rows(d) for d in spec["data"]]
        last = [{"op": "fit", "d": spec["final"]}]
        compared = 0
        for i, st in enumerate(list(spec["hist"]) + last):
            D = Ds[st["d"]]
            if st["op"] == "clone":
                est, cur = clone(est), None
                out.note("clone")
                continue
            if st["op"] == "pickle":
                est = pickle.loads(pickle.dumps(est))
                out.note("saved and restored")
                continue
            if st["op"] == "fit":
                ref = Model(spec["steps"])
                try:
                    ref.fit(D, spec["use_w"])
                except Empty as e:
                    ref, why = None, e
                fn = (lambda: self.call(est, spec, "fit", D, spec["how"]))
                v = run_faulted(fn, st["fault"], out, "fit") if st.get("fault") else outcome_all(fn, out)
                out.hit("op:fit")
                out.note("fit on data", st["d"], "->", brief(v, 80) if isinstance(v, Raised) else "ok")
                if isinstance(v, Raised):
                    cur = None
                    if ref is not None and not st.get("fault"):
                        out.fail(self.sig(spec, "fit-fails"), "fit raised %s although every estimator has samples to train on\nlog: %s" % (brief(v, 300), "; ".join(out.log)))
                        return out
                    continue
                if st.get("fault"):
                    cur = None               # whether it reports the fault is H09's question
                    continue
                if ref is None:
                    out.fail(self.sig(spec, "fit-without-samples"), "fit succeeded although %s\nlog: %s" % (why, "; ".join(out.log)))
                    return out
                cur = ref
                bad = self.inspect(est, spec, cur)
                if bad:
                    out.fail(self.sig(spec, "trained-on"), "%s\nlog: %s" % (bad, "; ".join(out.log)))
                    return out
                out.nontrivial = True
                continue
            if cur is None:
                continue
            c, v = self.one_eval(est, spec, cur, st["op"], D, st.get("fault"), out)
            compared += c
            if out.viol:
                return out
        if cur is None:
            out.hit("final_fit_impossible")
            out.state = digest([spec["steps"], out.log])
            return out
        for ev in spec["evals"]:
            c, v = self.one_eval(est, spec, cur, ev["op"], make_rows(ev["d"]), ev.get("fault"), out)
            compared += c
            if out.viol:
                return out
        out.nontrivial = compared > 0
        out.state = digest([spec["steps"], spec["data"], out.log])
        return out

    def one_eval(self, est, spec, model, op, D, fault, out):
        op = self.op_for(spec, op)
        try:
            want = model.eval(op, D)
        except Empty:
            want = None
        fn = (lambda: self.call(est, spec, op, D))
        v = run_faulted(fn, fault, out, op) if fault else outcome_all(fn, out)
        out.hit("op:" + op)
        out.note(op, len(D["sd"]), "rows of domains", sorted(set(D["sd"].tolist())), "->", brief(v, 60) if isinstance(v, Raised) else "ok")
        if isinstance(v, Raised):
            if want is not None and not fault:
                out.fail(self.sig(spec, op + "-fails"), "%s raised %s\nlog: %s" % (op, brief(v, 300), "; ".join(out.log)))
            return 0, v
        if fault:
            return 0, v
        if want is None:
            out.fail(self.sig(spec, op + "-of-unknown-domain"), "%s answered for a domain no estimator was trained on\nlog: %s" % (op, "; ".join(out.log)))
            return 0, v
        d = same(np.asarray(v, dtype=float), want, rtol=1e-12, atol=1e-9)
        if d:
            out.fail(self.sig(spec, op), "%s: the result is not, row by row, what the estimator of each row's domain gives for that row: %s\nlog: %s" % (op, d, "; ".join(out.log)))
        return 1, v

    def inspect(self, est, spec, model):
        """The fitted estimators under the selectors: trained on the right samples?"""
        sels = [est] if spec["nosel"] else [s for _, s in est.steps]
        for st, sigs, sel in zip(spec["steps"], model.state, sels):
            if sigs is None:
                continue
            for name, s in sigs.items():
                try:
                    e = sel.get_estimator() if name == "all" else sel.get_estimator(name)
                except Exception as ex:                  # noqa: BLE001
                    return "%s has no estimator for %r after the fit (%r)" % (st["sel"], name, ex)
                if abs(e.sig_ - s) > 1e-12:
                    return ("%s: the estimator for %r was not trained on exactly its own samples, in order, with their own labels and weights"
                            % (st["sel"], name))
            have = getattr(sel, "estimators_", None)
            if have is not None and {str(k) for k in have} != {str(k) for k in sigs}:
                return "%s holds estimators for %s, should for %s" % (st["sel"], sorted(map(str, have)), sorted(map(str, sigs)))
        return None

    # -- arrival order
    def run_arrival(self, spec):
        out = Out()
        sp, dspec = spec["obj"], spec["data"][0]
        D = W.make_data(dspec)
        test = W.make_data(spec["tests"][0])
        if spec["order"] is None:
            order, torder = np.arange(len(D["sd"])), np.arange(len(test["sd"]))
        else:
            order = arrival(D["sd"], spec["order"])
            torder = np.random.RandomState(spec["order"] + 1).permutation(len(test["sd"]))
        inv = np.argsort(order, kind="stable")

        def go(est, data, T):
            W.seed_globals(subseed(spec["seed"], "final"))
            v = outcome(lambda: W.do_fit(est, sp, data, spec["how"]))
            if isinstance(v, Raised):
                return {"fit": v}
            res = {"fit": v}
            for name, A in (("train", data), ("test", T)):
                for op in W.ops_for(est, sp):
                    if name == "train" and sp["kind"] != "adapter":
                        continue
                    if op == "weights" and name == "test":
                        continue
                    W.seed_globals(subseed(spec["seed"], name, op))
                    res["%s.%s" % (name, op)] = outcome(lambda: W.do_op(est, sp, op, A))
            return res
        ref = forked(lambda: go(W.build(sp), W.make_data(dspec), test))
        est = W.build(sp)
        Ds = [W.make_data(d) for d in spec["data"]]
        for i, st in enumerate(spec["hist"]):
            do_step(est, sp, st, Ds, out, spec["seed"], i)
        got = go(est, renamed(permuted(D, order), spec), renamed(permuted(test, torder), spec))
        out.hit("op:arrival")
        out.hit("names:%s" % spec.get("rename"))
        out.note("samples arrive in order", digest(order.tolist())[:8], "of domains", sorted(set(renamed(D, spec)["sd"].tolist())), "->", brief(got["fit"], 40) if isinstance(got["fit"], Raised) else "ok")
        out.nontrivial = not isinstance(ref["fit"], Raised)
        out.state = digest([sp, spec["data"], spec["order"], out.log])
        if isinstance(ref["fit"], Raised) or isinstance(got["fit"], Raised):
            if isinstance(ref["fit"], Raised) != isinstance(got["fit"], Raised):
                out.fail(self.sig(spec, "arrival:fit"), "fit fails or succeeds depending on how the domains' samples are interleaved or the domains are named: %s / %s"
                         % (brief(ref["fit"], 200), brief(got["fit"], 200)))
            return out
        got = {k: (unpermute(v, inv) if k == "fit" or k.startswith("train.") else unpermute(v, np.argsort(torder, kind="stable"), rows=len(torder)))
               for k, v in got.items()}
        ref = {k: unpermute(v, np.arange(len(order if k == "fit" or k.startswith("train.") else torder))) for k, v in ref.items()}
        # the estimators' iterative solvers stop within their own tolerance
        d = same(got, ref, rtol=0.03, atol=0.01) if sp["kind"] == "adapter" else far_apart(got, ref)
        if d:
            out.fail(self.sig(spec, "arrival:" + str(d).split(":")[0].strip(".'")[:24]), "%s: samples interleaved in another order, or domains under other names, get other results: %s\nlog: %s"
                     % (W.obj_name(sp), d, "; ".join(out.log)))
        return out


def far_apart(a, b):
    """None, or where two sets of answers differ by more than solver tolerance."""
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if k.endswith("log_proba"):              # predict_proba says the same without infinities
            continue
        if not isinstance(x, np.ndarray) or not isinstance(y, np.ndarray):
            if (isinstance(x, str) or isinstance(y, str)) and x != y:
                return "%s: %s / %s" % (k, brief(x, 100), brief(y, 100))
            continue
        if x.shape != y.shape:
            return "%s: shapes %s / %s" % (k, x.shape, y.shape)
        if not x.size or x.dtype.kind not in "fiub":
            continue
        tol = 0.05 * (1 + (np.nanmax(np.abs(y)) if x.dtype.kind == "f" else 0))
        bad = (x != y) & ~(np.abs(x.astype(float) - y.astype(float)) <= tol) & ~((x != x) & (y != y))
        if bad.ndim > 1:
            bad = bad.any(axis=tuple(range(1, bad.ndim)))
        if bad.sum() >= 2 and bad.mean() > 0.25:
            i = int(np.flatnonzero(bad)[0])
            return "%s: %d of %d rows differ, first row %d: %s vs %s" % (k, bad.sum(), len(bad), i, brief(x[i], 60), brief(y[i], 60))
    return None


# ---------------------------------------------------------------- scoring --
# (deep embedded validation and MixVal do not name the domains to the estimator)
PER_DOMAIN_OK = ("SupervisedScorer", "ImportanceWeightedScorer", "PredictionEntropyScorer", "SoftNeighborhoodDensity", "MaNoScorer", "CircularValidation")


def gen_scoring(r, kind):
    base = W.gen_data(r, r.choice(["bin", "bin", "multi"]), multi_ok=False)
    if kind == "score" and r.random() < 0.3:
        base["ntgt"] = 2
    base.pop("masked", None)
    base.pop("lab", None)
    base.update(scale=1.0, d=max(2, base["d"]), ns=r.choice([18, 24, 31]), nt=r.choice([15, 23, 28]))
    name = r.choice(sorted(X_.scorers()))
    ests = ["plain", "coral", "reweight", "ot"] + (["stub"] if kind == "score" else [])
    if kind == "score" and name in PER_DOMAIN_OK:
        ests += ["perdomain", "perdomain"]
    if name == "CircularValidation":
        ests = ["plain"]
    if name == "ImportanceWeightedScorer":
        ests = [e for e in ests if e != "stub"]
    data = [dict(base, seed=r.randrange(1 << 30)) for _ in range(r.choice([1, 2, 2, 3]))]
    hist = [{"d": r.randrange(len(data)), "fault": gen_fault(r, 0.4)} for _ in range(r.choice([0, 1, 2]))]
    spec = {"kind": kind, "scorer": name, "opt": r.randrange(4), "est": r.choice(ests), "data": data, "hist": hist,
            "order": r.randrange(1 << 30), "seed": r.randrange(1 << 30)}
    if kind == "score":
        spec["rename"] = r.choice([None, "zero", "far", "pm"])
        if name == "CircularValidation" and r.random() < 0.7:
            spec.update(order=None, rename=r.choice(["zero", "zero", "far", "pm"]), est=r.choice(["plain", "coral", "reweight", "ot", "perdomain"]))
    return spec


def shrink_scoring(spec):
    h = spec["hist"]
    for i in range(len(h)):
        yield dict(spec, hist=h[:i] + h[i + 1:])
        if h[i].get("fault"):
            yield dict(spec, hist=h[:i] + [dict(h[i], fault=None)] + h[i + 1:])
    if spec["est"] != "plain":
        yield dict(spec, est="plain")
    if spec["opt"]:
        yield dict(spec, opt=0)


def make_scorer(spec):
    from skada import metrics as M
    from sklearn.linear_model import LogisticRegression
    from sklearn.neighbors import KernelDensity
    name, o = spec["scorer"], spec["opt"]
    if name == "ImportanceWeightedScorer" and o:
        return M.ImportanceWeightedScorer(weight_estimator=KernelDensity(bandwidth=[0.5, 1.0, 2.0][o - 1]))
    if name == "DeepEmbeddedValidation" and o:
        return M.DeepEmbeddedValidation(domain_classifier=LogisticRegression(C=[0.1, 1.0, 5.0][o - 1]), random_state=o)
    if name == "PredictionEntropyScorer" and o:
        return M.PredictionEntropyScorer(reduction=["mean", "sum", "none"][o - 1])
    return X_.scorers()[name](spec["seed"] % 100)


def scoring_data(d):
    return W.make_data(d)


def call_scorer(sc, spec, est, D):
    y = D["y"].copy()
    if spec["scorer"] == "CircularValidation":
        y[D["sd"] < 0] = -1
    return sc(est, D["X"], y, **X_.score_kwargs(spec["scorer"], D))


def score_history(sc, spec, out):
    """Earlier uses of the same scorer, some of them interrupted."""
    for k, st in enumerate(spec["hist"]):
        A = scoring_data(spec["data"][st["d"]])
        e = X_.scoring_pipe(spec["est"])
        W.seed_globals(subseed(spec["seed"], "hist", k))
        v = outcome(lambda: e.fit(A["X"], A["y"].copy(), sample_domain=A["sd"]))
        if isinstance(v, Raised):
            continue
        fn = (lambda: call_scorer(sc, spec, e, A))
        v = run_faulted(fn, st["fault"], out, "score") if st.get("fault") else outcome_all(fn, out)
        out.note("scored data", st["d"], "->", brief(v, 60))


def ref_dev(sc, est, D):
    """Deep embedded validation by its definition, sample by sample."""
    from sklearn.linear_model import LogisticRegression
    from sklearn.model_selection import train_test_split
    s = np.flatnonzero(D["sd"] >= 0)
    tr, val = train_test_split(s, test_size=0.33, random_state=np.random.RandomState(sc.random_state))
    k = max(i for i, (_, st) in enumerate(est.steps) if hasattr(st, "transform")) + 1 if any(hasattr(st, "transform") for _, st in est.steps) else 0
    feats = est[:k].transform if k else (lambda X: X)
    ftr, fval, ft = feats(D["X"][tr]), feats(D["X"][val]), feats(D["X"][D["sd"] < 0])
    clf = clone(sc.domain_classifier) if sc.domain_classifier is not None else LogisticRegression()
    clf.fit(np.concatenate((ftr, ft)), np.r_[np.ones(len(ftr), int), np.zeros(len(ft), int)])
    p = clf.predict_proba(fval)
    proba = est.predict_proba(D["X"][val], sample_domain=D["sd"][val], allow_source=True)
    classes = np.unique(D["y"][s])
    w, e = [], []
    for i, j in enumerate(val):
        w.append(len(ftr) / len(ft) * p[i, 0] / p[i, 1])
        e.append(-np.log(min(max(proba[i, list(classes).index(D["y"][j])], 1e-15), 1 - 1e-15)))
    w, e = np.array(w), np.array(e)
    we = w * e
    eta = -np.cov(we, w)[0, 1] / np.var(w, ddof=1) if np.var(w, ddof=1) else 0
    return sc._sign * (we.mean() + eta * w.mean() - eta)


def ref_mixval(sc, est, D):
    t = np.flatnonzero(D["sd"] < 0)
    X = D["X"][t]
    perm = np.random.RandomState(sc.random_state).permutation(len(t))
    a = est.predict(X, sample_domain=D["sd"][t])
    mix = np.array([sc.alpha * X[i] + (1 - sc.alpha) * X[perm[i]] for i in range(len(t))])
    lab = a if sc.alpha >= 0.5 else a[perm]
    right = est.predict(mix, sample_domain=np.full(len(t), -1)) == lab
    sides = [right[a == a[perm]], right[a != a[perm]]]
    parts = [np.mean(x) if len(x) else np.nan for x in sides]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return sc._sign * {"both": np.nanmean(parts), "intra": parts[0], "inter": parts[1]}[sc.ice_type]


def ref_supervised(sc, est, D):
    t = np.flatnonzero(D["sd"] < 0)
    return sc._sign * float(np.mean([est.predict(D["X"][[i]], sample_domain=D["sd"][[i]])[0] == D["y_true"][i] for i in t]))


def ref_iw(sc, est, D):
    from sklearn.neighbors import KernelDensity
    s, t = np.flatnonzero(D["sd"] >= 0), np.flatnonzero(D["sd"] < 0)
    kd = clone(sc.weight_estimator) if sc.weight_estimator is not None else KernelDensity()
    ls = clone(kd).fit(D["X"][s]).score_samples(D["X"][s])
    lt = clone(kd).fit(D["X"][t]).score_samples(D["X"][s])
    w = np.exp(lt - ls)
    w = w / w.sum() if w.sum() else np.full(len(s), 1 / len(s))
    right = est.predict(D["X"][s], sample_domain=D["sd"][s], allow_source=True) == D["y"][s]
    return sc._sign * float(np.sum(w[right]) / np.sum(w))


def arrival(sd, seed):
    """Row order in which the samples of the domains arrive interleaved, each
    domain's own samples in their own order."""
    g = np.random.RandomState(seed)
    labs = sd[g.permutation(len(sd))]
    order = np.empty(len(sd), dtype=int)
    for dom in np.unique(sd):
        order[labs == dom] = np.flatnonzero(sd == dom)
    return order


def renamed(D, spec):
    return dict(D, sd=W.named(D["sd"], spec["rename"])) if spec.get("rename") else D


def permuted(D, order):
    out = {}
    for k, v in D.items():
        a = v[order]
        out[k] = np.asfortranarray(a) if v.ndim == 2 and v.flags.f_contiguous and not v.flags.c_contiguous else a
    return out


def unpermute(v, inv, rows=None):
    n = len(inv)
    if isinstance(v, Raised):
        return "raised " + v.name if hasattr(v, "name") else "raised"
    if isinstance(v, np.ndarray) and v.ndim and len(v) == n:
        return v[inv]
    if isinstance(v, (tuple, list)):
        return type(v)(unpermute(x, inv) for x in v)
    if isinstance(v, dict):
        return {k: unpermute(x, inv) for k, x in v.items()}
    return v


# ------------------------------------------------------------------ H11 ----
class H11(HistProp):
    pid = "H11"
    real, assumptions = REAL, ASSUME
    rule = "a run counts when the final fit and at least one prediction after it succeeded; distinct = (object, history with fault sites, data)"
    NUMERIC = ("MMDTarSReweight", "MMDLSConS", "TSL")         # use the numeric distance of labels: only shifting is neutral

    def gen(self, r, tier):
        if r.random() < 0.15:
            sp = gen_scoring(r, "scorer")
            for d in sp["data"]:
                d["lab"] = r.choice(["shift", "gap", "shift", "rev"])
            sp["data"][-1]["lab"] = r.choice(["shift", "gap"])
            return sp
        for _ in range(200):
            sp, tk = W.gen_object(r, ("est", "pipe", "sel", "adapter"))
            if sp["kind"] == "adapter" and r.random() < 0.5:
                sp = dict(sp, name=r.choice(["OTLabelProp", "JCPOTLabelProp", "MMDTarSReweight"]))
                sp["cfg"], tk = r.choice(W.ADAPTERS[sp["name"]].cfgs), "bin"
            if tk == "reg" or (sp["kind"] == "sel" and sp["inner"] in ("scaler", "pca")):
                continue
            break
        ds = gen_dataset_family(r, sp, tk, r.choice([1, 2, 2, 3]))
        for d in ds:
            d.pop("lab", None)
            if r.random() < 0.5:
                d["lab"] = r.choice(["shift", "gap", "rev"])
        hist = gen_hist(r, r.choice([0, 1, 2, 3]), len(ds), 0.4)
        fin = r.randrange(len(ds))
        ds[fin]["lab"] = r.choice(["shift", "shift", "gap"])
        if r.random() < 0.35:
            ds[fin]["ydt"] = r.choice(["bool", "bool", "uint8", "int8", "float64"])
            if ds[fin]["ydt"] == "bool" and tk == "bin":
                ds[fin].pop("lab")
                ds[fin].pop("masked", None)
        return {"obj": sp, "task": tk, "data": ds, "hist": hist, "final": fin, "tests": [as_test(ds[fin], r)],
                "how": r.choice(["fit", "fit_transform"]), "seed": r.randrange(1 << 30)}

    def sig(self, spec, what):
        if spec.get("kind") == "scorer":
            return "H11:%s:%s" % (spec["scorer"], what)
        return HistProp.sig(self, spec, what)

    def run_scorer(self, spec):
        out = Out()
        dspec = spec["data"][-1]

        def fitted(d):
            D = scoring_data(d)
            est = X_.scoring_pipe(spec["est"])
            W.seed_globals(spec["seed"])
            est.fit(D["X"], D["y"].copy(), sample_domain=D["sd"])
            return est, D

        def plain():
            est, D = fitted({k: v for k, v in dspec.items() if k != "lab"})
            return outcome(lambda: call_scorer(make_scorer(spec), spec, est, D))
        ref = forked(plain)
        sc = make_scorer(spec)
        score_history(sc, spec, out)
        est, D = fitted(dspec)
        got = outcome_all(lambda: call_scorer(sc, spec, est, D), out)
        out.hit("op:score_relabelled_" + dspec["lab"])
        out.note("score ->", brief(got, 60))
        out.nontrivial = not isinstance(ref, Raised)
        out.state = digest([spec["scorer"], spec["est"], spec["data"], out.log])
        if isinstance(ref, Raised) or isinstance(got, Raised):
            if isinstance(ref, Raised) != isinstance(got, Raised):
                out.fail(self.sig(spec, "fails"), "scoring fails or succeeds depending on the names of the classes: %s / %s" % (brief(ref, 200), brief(got, 200)))
            return out
        if not np.allclose(got, ref, rtol=1e-6, atol=1e-8, equal_nan=True):
            out.fail(self.sig(spec, "value"), "%s of %s: the same data with renamed classes (%s) get another score: %s, should be %s\nlog: %s"
                     % (spec["scorer"], spec["est"], dspec["lab"], brief(got, 80), brief(ref, 80), "; ".join(out.log)))
        return out

    def shrink(self, spec):
        if spec.get("kind") == "scorer":
            yield from shrink_scoring(spec)
            return
        for s in HistProp.shrink(self, spec):
            f, t = s["data"][s["final"]], (s["tests"] or [{}])[0]
            if (f.get("lab") or f.get("ydt")) and s["tests"] and t.get("lab") == f.get("lab"):
                yield s

    def run(self, spec):
        if spec.get("kind") == "scorer":
            return self.run_scorer(spec)
        out = Out()
        sp, fin = spec["obj"], spec["data"][spec["final"]]
        lab = fin.get("lab")

        def plainly(d):
            return {k: v for k, v in d.items() if k not in ("lab", "ydt")}
        ref = forked(lambda: fit_and_observe(sp, plainly(fin), [plainly(t) for t in spec["tests"]], spec["how"], spec["seed"]))
        est = W.build(sp)
        Ds = [W.make_data(d) for d in spec["data"]]
        for i, st in enumerate(spec["hist"]):
            do_step(est, sp, st, Ds, out, spec["seed"], i)
        got = fit_and_observe(sp, fin, spec["tests"], spec["how"], spec["seed"], est=est)
        if fin.get("ydt") == "bool" and isinstance(got["fit"], Raised) and got["fit"].kind == "TypeError":
            out.hit("op:bool_labels_refused")       # arithmetic on labels: a loud refusal is no wrong answer
            return out
        if isinstance(ref["fit"], Raised) != isinstance(got["fit"], Raised):
            out.fail(self.sig(spec, "fit"), "fit fails or succeeds depending on the names of the classes: %s / %s" % (brief(ref["fit"], 200), brief(got["fit"], 200)))
            return out
        if isinstance(ref["fit"], Raised):
            out.hit("ref_fit_failed")
            return out
        D = W.make_data(fin)
        known = np.unique(D["y_true"])
        fwd = {"shift": lambda a: a + 3, "gap": lambda a: 2 * a + 1, None: lambda a: a}[lab]
        np_ = 0
        if sp["kind"] == "adapter" and isinstance(got["fit"], tuple) and len(got["fit"]) == 3:      # an adapter that hands labels on
            np_ += 1
            yv, yr = (np.asarray(v["fit"][1]).astype(float) for v in (got, ref))
            wrong = np.setdiff1d(np.unique(yv), np.r_[known.astype(float), -1.0])
            if len(wrong):
                out.fail(self.sig(spec, "invented"), "the labels handed on are %s; the classes of the latest fit are %s\nhistory: %s"
                         % (wrong.tolist(), known.tolist(), "; ".join(out.log)))
                return out
            got["fit"] = [got["fit"][0], yv, got["fit"][2]]
            ref["fit"] = [ref["fit"][0], np.where(yr == -1, yr, fwd(yr)), ref["fit"][2]]
        for k, v in list(got.items()):
            if not k.endswith(".predict") or isinstance(v, Raised):
                continue
            np_ += 1
            wrong = np.setdiff1d(np.unique(v), known)
            if len(wrong):
                out.fail(self.sig(spec, "invented"), "%s returned labels %s; the classes of the latest fit are %s\nhistory: %s"
                         % (k, wrong.tolist(), known.tolist(), "; ".join(out.log)))
                return out
            got[k] = np.asarray(v).astype(float)
            if isinstance(ref.get(k), np.ndarray):
                ref[k] = fwd(ref[k]).astype(float)
        out.hit("op:relabel_%s_%s" % (lab, fin.get("ydt", "int64")))
        out.nontrivial = np_ > 0
        out.state = digest([sp, out.log, spec["data"]])
        names = [s["name"] for s in sp.get("steps", [sp])]
        if lab == "gap" and set(names) & set(self.NUMERIC):
            return out
        for r in (got, ref):
            for k in list(r):
                if isinstance(r[k], Raised):
                    r[k] = "raised"
        if sp["kind"] == "adapter":
            np_ += 1
            out.nontrivial = True
        d = same(got, ref)
        if d:
            out.fail(self.sig(spec, "renamed"), "%s: the same data with renamed classes (%s) gives other answers: %s\nhistory: %s"
                     % (W.obj_name(sp), [lab, fin.get("ydt")], d, "; ".join(out.log)))
        return out
