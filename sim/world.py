"""Workload vocabulary shared by the shallow-learning properties: data sets,
the estimator zoo and the operations a user performs.  Everything is built from
small JSON specs so that a run can be replayed and shrunk."""
import warnings

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, TransformerMixin, clone
from sklearn.decomposition import PCA
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.naive_bayes import GaussianNB
from sklearn.neighbors import KernelDensity, KNeighborsClassifier, KNeighborsRegressor
from sklearn.neural_network import MLPClassifier
from sklearn.preprocessing import MinMaxScaler, StandardScaler
from sklearn.svm import SVC, SVR
from sklearn.tree import DecisionTreeClassifier

import skada
from skada import (
    CORAL, CORALAdapter, ClassRegularizerOTMapping, ClassRegularizerOTMappingAdapter,
    DASVMClassifier, DensityReweight, DensityReweightAdapter, DiscriminatorReweight,
    DiscriminatorReweightAdapter, DomainSubsampler, EntropicOTMapping,
    EntropicOTMappingAdapter, GaussianReweight, GaussianReweightAdapter, JCPOTLabelProp,
    JCPOTLabelPropAdapter, JDOTClassifier, JDOTRegressor, KLIEPReweight, KLIEPReweightAdapter,
    KMMReweight, KMMReweightAdapter, LinearOTMapping, LinearOTMappingAdapter, MMDLSConSMapping,
    MMDLSConSMappingAdapter, MMDTarSReweight, MMDTarSReweightAdapter, MultiLinearMongeAlignment,
    MultiLinearMongeAlignmentAdapter, NearestNeighborReweight, NearestNeighborReweightAdapter,
    OTLabelProp, OTLabelPropAdapter, OTMapping, OTMappingAdapter, PerDomain, SelectSource,
    SelectSourceTarget, SelectTarget, Shared, StratifiedDomainSubsampler, SubspaceAlignment,
    SubspaceAlignmentAdapter, Subsampler, TransferComponentAnalysis,
    TransferComponentAnalysisAdapter, TransferJointMatching, TransferJointMatchingAdapter,
    TransferSubspaceLearning, TransferSubspaceLearningAdapter, make_da_pipeline,
)
from skada._gradual_da import GradualEstimator

from .canon import Raised, digest
from .engine import ENGINE, InjectedError
from .runner import subseed

warnings.filterwarnings("ignore")


# ---------------------------------------------------------------- data ----
def gen_data(r, task="bin", small=True, multi_ok=True, nd=None):
    d = nd or r.choice([1 + 1, 2, 3, 4])
    spec = {"seed": r.randrange(1 << 30), "task": task, "d": d,
            "ns": r.choice([8, 12, 17, 24]), "nt": r.choice([7, 12, 16, 23]),
            "nsrc": 1, "ntgt": 1,
            "layout": r.choice(["block", "block", "interleave", "tfirst"]),
            "order": r.choice(["C", "C", "F"]),
            "scale": r.choice([0.5, 1.0, 1.0, 3.0])}
    if multi_ok and r.random() < 0.3:
        spec["nsrc"] = r.choice([1, 2, 3])
        spec["ntgt"] = r.choice([1, 2])
    if r.random() < 0.12:
        spec["dtype"] = "f4"
    if r.random() < 0.35:
        spec["masked"] = True
    if r.random() < 0.2:
        spec["names"] = r.choice(["zero", "zero", "far", "pm"])
    return spec


def shape_of(spec):
    return (spec["ns"] * spec["nsrc"] + spec["nt"] * spec["ntgt"], spec["d"])


def named(sd, kind):
    """The same domains, in the same order, under other labels."""
    out = sd.copy()
    src, tgt = sorted({int(v) for v in sd if v >= 0}), sorted((int(v) for v in set(sd.tolist()) if v < 0), reverse=True)
    for i, v in enumerate(src):
        out[sd == v] = {"zero": i, "far": 3 + 5 * i, "pm": i + 1}[kind]
    for j, v in enumerate(tgt):
        out[sd == v] = {"zero": v, "far": -(2 + 7 * j), "pm": -(j + 1)}[kind]
    return out


def make_data(spec):
    """-> dict X, y, sd (and the true target labels y_true)."""
    g = np.random.RandomState(spec["seed"])
    d, task = spec["d"], spec["task"]
    k = 3 if task == "multi" else 2
    Xs, ys, ds = [], [], []
    centers = g.randn(k, d) * 2.0
    wreg = g.randn(d)

    def block(n, dom, shift):
        lab = np.arange(n) % k
        g.shuffle(lab)
        X = centers[lab] * spec["scale"] + g.randn(n, d) * 0.7 + shift
        if task == "reg":
            y = X @ wreg + 0.1 * g.randn(n)
        else:
            y = lab.astype(np.int64)
        Xs.append(X)
        ys.append(y)
        ds.append(np.full(n, dom, dtype=np.int64))

    for i in range(spec["nsrc"]):
        block(spec["ns"], i + 1, 0.3 * i)
    for j in range(spec["ntgt"]):
        block(spec["nt"], -(spec["nsrc"] + 1 + j), 1.0 + 0.5 * j)
    X, y, sd = np.concatenate(Xs), np.concatenate(ys), np.concatenate(ds)
    if spec["layout"] == "interleave":
        p = g.permutation(len(y))
        X, y, sd = X[p], y[p], sd[p]
    elif spec["layout"] == "tfirst":
        p = np.argsort(sd >= 0, kind="stable")
        X, y, sd = X[p], y[p], sd[p]
    if spec.get("names"):
        sd = named(sd, spec["names"])
    if spec.get("dtype") == "f4":
        X = X.astype(np.float32)
    X = np.asfortranarray(X) if spec.get("order") == "F" else np.ascontiguousarray(X)
    if spec.get("lab") and task != "reg":
        y = {"shift": y + 3, "gap": 2 * y + 1, "rev": k - 1 - y}[spec["lab"]]
    y_true = y.copy()
    if spec.get("masked"):
        y = y.copy()
        y[sd < 0] = np.nan if task == "reg" else -1
    dt = spec.get("ydt")
    if dt and task != "reg" and not (dt in ("bool", "uint8") and spec.get("masked")) and not (dt == "bool" and (k > 2 or spec.get("lab"))):
        y, y_true = y.astype(dt), y_true.astype(dt)
    return {"X": X, "y": y, "sd": sd, "y_true": y_true,
            "w": np.abs(g.randn(len(y))) + 0.1}


def target_part(D):
    m = D["sd"] < 0
    return {k: v[m] for k, v in D.items()}


def shrink_data(spec):
    for key, vals in (("layout", ["block"]), ("order", ["C"]), ("nsrc", [1]), ("ntgt", [1]),
                      ("ns", [8, 6]), ("nt", [7, 6]), ("d", [2]), ("scale", [1.0])):
        for v in vals:
            if spec.get(key) != v and not (isinstance(v, int) and spec[key] < v):
                s = dict(spec)
                s[key] = v
                yield s
    for key in ("dtype", "ydt", "lab", "masked", "names"):
        if spec.get(key):
            s = dict(spec)
            del s[key]
            yield s


# ------------------------------------------------- simulated collaborator --
class StubClassifier(ClassifierMixin, BaseEstimator):
    """A deterministic nearest-centroid classifier whose every call is an
    instant of the simulation and can be told to fail."""
    __metadata_request__fit = {"sample_weight": True}

    def __init__(self, tag="stub", smooth=1.0):
        self.tag = tag
        self.smooth = smooth

    def fit(self, X, y, sample_weight=None, boost=1.0):
        ENGINE.point("stub.fit")
        fault_seam("stub.fit")
        X = np.asarray(X, dtype=float) * boost
        y = np.asarray(y)
        keep = (y != -1) if y.dtype.kind in "iu" else ~np.isnan(y.astype(float))
        w = np.ones(len(y)) if sample_weight is None else np.asarray(sample_weight, dtype=float) + 1e-9
        self.classes_ = np.unique(y[keep])
        cents = []
        for c in self.classes_:
            m = keep & (y == c)
            cents.append((X[m] * w[m, None]).sum(0) / w[m].sum())
        self.centroids_ = np.array(cents)
        ENGINE.point("stub.fit.end")
        return self

    def decision_function(self, X):
        p = self._logits(X)
        return p[:, 1] - p[:, 0] if p.shape[1] == 2 else p

    def _logits(self, X):
        ENGINE.point("stub.eval")
        fault_seam("stub.eval")
        X = np.asarray(X, dtype=float)
        return -((X[:, None, :] - self.centroids_[None]) ** 2).sum(-1) / self.smooth

    def predict_proba(self, X):
        z = self._logits(X)
        z = np.exp(z - z.max(1, keepdims=True))
        return z / z.sum(1, keepdims=True)

    def predict_log_proba(self, X):
        return np.log(self.predict_proba(X) + 1e-300)

    def predict(self, X):
        return self.classes_[np.argmax(self._logits(X), axis=1)]


class StubRegressor(BaseEstimator):
    """Deterministic ridge regressor with the same instants and fault seam."""
    _estimator_type = "regressor"
    __metadata_request__fit = {"sample_weight": True}

    def __init__(self, alpha=1e-3):
        self.alpha = alpha

    def fit(self, X, y, sample_weight=None, boost=1.0):
        ENGINE.point("stub.fit")
        fault_seam("stub.fit")
        X = np.asarray(X, dtype=float) * boost
        y = np.asarray(y, dtype=float)
        keep = ~np.isnan(y)
        w = np.ones(len(y)) if sample_weight is None else np.asarray(sample_weight, dtype=float)
        A = np.c_[X[keep], np.ones(keep.sum())]
        W = w[keep][:, None]
        self.coef_ = np.linalg.solve(A.T @ (W * A) + self.alpha * np.eye(A.shape[1]), A.T @ (w[keep] * y[keep]))
        return self

    def predict(self, X):
        ENGINE.point("stub.eval")
        fault_seam("stub.eval")
        X = np.asarray(X, dtype=float)
        return np.c_[X, np.ones(len(X))] @ self.coef_

    def score(self, X, y, sample_weight=None):
        return -float(np.mean((self.predict(X) - y) ** 2))


class _Seam:
    """Counts collaborator calls and raises at the chosen one."""

    def __init__(self):
        self.on = False
        self.calls = 0
        self.fail_at = None
        self.exc = InjectedError
        self.fired = 0
        self.names = []


SEAM = _Seam()


def fault_seam(name):
    if not SEAM.on:
        return
    SEAM.calls += 1
    SEAM.names.append(name)
    if SEAM.fail_at is not None and SEAM.calls == SEAM.fail_at:
        SEAM.fired += 1
        raise SEAM.exc("injected failure in %s (call %d)" % (name, SEAM.calls))


def seam_on(fail_at=None, exc=InjectedError):
    SEAM.on, SEAM.calls, SEAM.fail_at, SEAM.exc, SEAM.fired, SEAM.names = True, 0, fail_at, exc, 0, []


def seam_off():
    SEAM.on = False
    return SEAM.fired


# ----------------------------------------------------------------- zoo ----
def base_clf(name, weights=True):
    e = {"lr": lambda: LogisticRegression(),
         "lrc": lambda: LogisticRegression(C=0.3),
         "svc": lambda: SVC(random_state=0),
         "svcl": lambda: SVC(kernel="linear", random_state=0),
         "nb": lambda: GaussianNB(),
         "tree": lambda: DecisionTreeClassifier(random_state=0),
         "knn": lambda: KNeighborsClassifier(n_neighbors=3),
         "stub": lambda: StubClassifier()}[name]()
    if weights and name not in ("knn",):
        e.set_fit_request(sample_weight=True)
    return e


def base_reg(name):
    return {"lin": lambda: LinearRegression().set_fit_request(sample_weight=True),
            "ridge": lambda: Ridge(alpha=0.1).set_fit_request(sample_weight=True),
            "svr": lambda: SVR().set_fit_request(sample_weight=True),
            "knn": lambda: KNeighborsRegressor(n_neighbors=3),
            "stub": lambda: StubRegressor()}[name]()


class Entry:
    """One kind of object users fit.  `make(r)` -> JSON config; `build(cfg)`."""

    def __init__(self, name, kind, cfgs, build, tasks=("bin",), multi=True, rng=False, cost=1,
                 ydep=True, minnd=2):
        self.name, self.kind, self.cfgs, self.build = name, kind, cfgs, build
        self.tasks, self.multi, self.rng, self.cost = tasks, multi, rng, cost
        self.ydep = ydep
        self.minnd = minnd


ADAPTERS = {}


def _a(name, cls, cfgs, **kw):
    ADAPTERS[name] = Entry(name, "adapter", cfgs, lambda c, cls=cls: cls(**_resolve(c)), **kw)


def _resolve(c):
    """JSON config -> constructor arguments (estimators are named by '@name')."""
    out = {}
    for k, v in c.items():
        if isinstance(v, str) and v.startswith("@"):
            v = {"@kde05": lambda: KernelDensity(bandwidth=0.5), "@kde2": lambda: KernelDensity(bandwidth=2.0),
                 "@lrc": lambda: LogisticRegression(C=0.3), "@nb": lambda: GaussianNB(),
                 "@stub": lambda: StubClassifier(), "@svc": lambda: SVC(random_state=0),
                 "@knn": lambda: KNeighborsClassifier(n_neighbors=3),
                 "@lr": lambda: LogisticRegression(),
                 "@svcp": lambda: SVC(kernel="linear", random_state=0),
                 "@mlp": lambda: MLPClassifier(hidden_layer_sizes=(4,), max_iter=5, random_state=0),
                 "@lin": lambda: LinearRegression(), "@ridge": lambda: Ridge(alpha=0.1),
                 "@stubr": lambda: StubRegressor(),
                 "@emd": lambda: __import__("ot").da.EMDTransport(),
                 "@sink": lambda: __import__("ot").da.SinkhornTransport(reg_e=2.0),
                 }[v]()
        out[k] = v
    return out


_a("DensityReweight", DensityReweightAdapter, [{}, {"weight_estimator": "@kde05"}, {"weight_estimator": "@kde2"}], tasks=("bin", "multi", "reg"), ydep=False)
_a("GaussianReweight", GaussianReweightAdapter, [{}, {"reg": 0.1}], tasks=("bin", "multi", "reg"), ydep=False)
_a("DiscriminatorReweight", DiscriminatorReweightAdapter, [{}, {"domain_classifier": "@lrc"}, {"domain_classifier": "@nb"}, {"domain_classifier": "@stub"}], tasks=("bin", "multi", "reg"), ydep=False)
_a("KLIEPReweight", KLIEPReweightAdapter, [
    {"gamma": 0.5, "random_state": 0}, {"gamma": [0.1, 1.0], "random_state": 1, "cv": 3, "max_iter": 60},
    {"gamma": "scale", "random_state": 2}, {"gamma": ["auto", "scale"], "random_state": 0, "cv": 3, "max_iter": 60},
    {"gamma": [0.1, "auto", "scale"], "random_state": 3, "cv": 3, "n_centers": 5, "max_iter": 40}], tasks=("bin", "multi", "reg"), cost=2, ydep=False)
_a("NearestNeighborReweight", NearestNeighborReweightAdapter, [{}, {"n_neighbors": 3}, {"laplace_smoothing": True}, {"n_neighbors": 2, "laplace_smoothing": True, "algorithm": "brute"}, {"metric": "manhattan", "n_neighbors": 2}, {"weights": "distance", "n_neighbors": 3}], tasks=("bin", "multi", "reg"), ydep=False)
_a("KMMReweight", KMMReweightAdapter, [{"gamma": 0.5, "max_iter": 60}, {"gamma": 0.2, "smooth_weights": True, "max_iter": 60},
   {"kernel": "linear", "max_iter": 50}, {"gamma": 0.3, "solver": "scipy", "max_iter": 30, "B": 10.0},
   {"kernel": "poly", "degree": 2, "gamma": 0.1, "coef0": 0.5, "max_iter": 40}, {"gamma": 0.5, "eps": 0.3, "max_iter": 40},
   {"kernel": "sigmoid", "gamma": 0.05, "smooth_weights": True, "max_iter": 30}], tasks=("bin", "multi", "reg"), cost=2, ydep=False)
_a("MMDTarSReweight", MMDTarSReweightAdapter, [{"gamma": 0.5, "max_iter": 40}, {"gamma": 1.0, "reg": 1e-6, "max_iter": 40}], tasks=("bin", "multi", "reg"), cost=2)
_a("SubspaceAlignment", SubspaceAlignmentAdapter, [{"random_state": 0}, {"n_components": 1, "random_state": 1}, {"n_components": 2, "random_state": 0}], tasks=("bin", "multi", "reg"), ydep=False)
_a("TCA", TransferComponentAnalysisAdapter, [{}, {"n_components": 1}, {"kernel": "linear", "n_components": 2}, {"mu": 1.0}], tasks=("bin", "multi", "reg"), ydep=False)
_a("TJM", TransferJointMatchingAdapter, [{"max_iter": 3}, {"n_components": 1, "max_iter": 3}, {"kernel": "linear", "n_components": 2, "max_iter": 2, "tradeoff": 0.1}], tasks=("bin", "multi", "reg"), cost=2, ydep=False)
_a("TSL", TransferSubspaceLearningAdapter, [{"n_components": 1, "max_iter": 2}, {"n_components": 2, "base_method": "pca", "max_iter": 2}, {"n_components": 1, "base_method": "lpp", "max_iter": 2}, {"n_components": 1, "mu": 2.0, "reg": 0.5, "length_scale": 0.5, "max_iter": 2}], tasks=("bin", "multi"), cost=3)
_a("OTMapping", OTMappingAdapter, [{}, {"metric": "euclidean"}, {"norm": "max"}, {"metric": "cityblock", "norm": "log"}, {"norm": "median"}], tasks=("bin", "multi"))
_a("EntropicOTMapping", EntropicOTMappingAdapter, [{"max_iter": 50}, {"reg_e": 5.0, "max_iter": 50}, {"norm": "max", "max_iter": 50}, {"metric": "euclidean", "norm": "loglog", "max_iter": 30}], tasks=("bin", "multi"))
_a("ClassRegOTMapping", ClassRegularizerOTMappingAdapter, [{"max_iter": 2, "max_inner_iter": 20}, {"norm": "l1l2", "max_iter": 2, "max_inner_iter": 20}, {"reg_cl": 0.5, "max_iter": 2, "max_inner_iter": 20}, {"reg_e": 3.0, "metric": "euclidean", "max_iter": 2, "max_inner_iter": 20}], tasks=("bin", "multi"), cost=2)
_a("LinearOTMapping", LinearOTMappingAdapter, [{"reg": 0.1}, {"reg": 1.0, "bias": False}], tasks=("bin", "multi", "reg"), ydep=False)
_a("MultiLinearMonge", MultiLinearMongeAlignmentAdapter, [{}, {"reg": 1e-3}, {"bias": False}, {"test_time": True}], tasks=("bin", "multi", "reg"), ydep=False)
_a("CORAL", CORALAdapter, [{}, {"reg": 0.1}, {"assume_centered": True}], tasks=("bin", "multi", "reg"), ydep=False)
_a("MMDLSConS", MMDLSConSMappingAdapter, [{"gamma": 0.1, "max_iter": 2}, {"gamma": 0.5, "reg_m": 1e-3, "max_iter": 2}, {"gamma": 0.2, "reg_k": 1e-3, "max_iter": 1}], tasks=("bin", "multi", "reg"), cost=3)
_a("OTLabelProp", OTLabelPropAdapter, [{}, {"reg": 1.0}, {"metric": "euclidean"}, {"reg": 2.0, "n_iter_max": 30}], tasks=("bin", "multi", "reg"))
_a("JCPOTLabelProp", JCPOTLabelPropAdapter, [{"max_iter": 3}, {"reg": 2.0, "max_iter": 3}, {"metric": "euclidean", "max_iter": 2}], tasks=("bin",), cost=2)
_a("Subsampler", Subsampler, [{"train_size": 10, "random_state": 0}, {"train_size": 0.6, "random_state": 3}], tasks=("bin", "multi", "reg"), ydep=False)
_a("DomainSubsampler", DomainSubsampler, [{"train_size": 10, "random_state": 0}, {"train_size": 12, "random_state": 3}], tasks=("bin", "multi"), ydep=False)
_a("StratDomainSubsampler", StratifiedDomainSubsampler, [{"train_size": 10, "random_state": 0}, {"train_size": 12, "random_state": 3}], tasks=("bin", "multi"), ydep=False)

ESTIMATORS = {}


def _e(name, build, cfgs, **kw):
    ESTIMATORS[name] = Entry(name, kw.pop("kind", "est"), cfgs, build, **kw)


_e("DASVM", lambda c: DASVMClassifier(**_resolve(c)), [
    {"base_estimator": "@svcp", "max_iter": 3}, {"base_estimator": "@svc", "k": 2, "max_iter": 3, "save_estimators": True, "save_indices": True},
    {"base_estimator": "@lr", "k": 4, "max_iter": 3}, {"base_estimator": "@stub", "max_iter": 2}, {"base_estimator": "@svcp", "k": 1, "max_iter": 4, "save_indices": True}], multi=False, cost=4)
_e("JDOTClassifier", lambda c: JDOTClassifier(**_resolve(c)), [
    {"n_iter_max": 4}, {"alpha": 0.2, "n_iter_max": 3, "base_estimator": "@lrc"},
    {"metric": "hinge", "base_estimator": "@svcp", "n_iter_max": 3}, {"base_estimator": "@stub", "n_iter_max": 3},
    {"base_estimator": "@stub", "n_iter_max": 3, "boost": 0.5},
    {"base_estimator": "@nb", "thr_weights": 0.1, "n_iter_max": 3}], tasks=("bin",), cost=2)
_e("JDOTRegressor", lambda c: JDOTRegressor(**_resolve(c)), [
    {"n_iter_max": 4}, {"alpha": 0.2, "n_iter_max": 3, "base_estimator": "@ridge"}, {"base_estimator": "@stubr", "n_iter_max": 3},
    {"base_estimator": "@stubr", "n_iter_max": 2, "boost": 0.5}], tasks=("reg",), cost=2)
_e("Gradual", lambda c: GradualEstimator(**_resolve(c)), [
    {"base_estimator": "@mlp", "n_steps": 2}, {"base_estimator": "@mlp", "n_steps": 2, "advanced_ot_plan_sampling": True, "save_estimators": True},
    {"base_estimator": "@mlp", "n_steps": 1, "ot_method": "@emd", "save_intermediate_data": True},
    {"base_estimator": "@mlp", "n_steps": 2, "ot_method": "@sink"},
    {"base_estimator": "@mlp", "n_steps": 3, "alpha": 0.5}], cost=5, multi=False)

PIPE_FUN = {
    "DensityReweight": (DensityReweight, {}), "GaussianReweight": (GaussianReweight, {}),
    "DiscriminatorReweight": (DiscriminatorReweight, {}), "KLIEPReweight": (KLIEPReweight, {}),
    "NearestNeighborReweight": (NearestNeighborReweight, {}), "KMMReweight": (KMMReweight, {}),
    "MMDTarSReweight": (MMDTarSReweight, {}), "SubspaceAlignment": (SubspaceAlignment, {}),
    "TCA": (TransferComponentAnalysis, {}), "TJM": (TransferJointMatching, {}),
    "TSL": (TransferSubspaceLearning, {}), "OTMapping": (OTMapping, {}),
    "EntropicOTMapping": (EntropicOTMapping, {}), "ClassRegOTMapping": (ClassRegularizerOTMapping, {}),
    "LinearOTMapping": (LinearOTMapping, {}), "MultiLinearMonge": (MultiLinearMongeAlignment, {}),
    "CORAL": (CORAL, {}), "MMDLSConS": (MMDLSConSMapping, {}), "OTLabelProp": (OTLabelProp, {}),
    "JCPOTLabelProp": (JCPOTLabelProp, {}),
}
_ACCEPTS_WEIGHT_ONLY = ("DensityReweight", "GaussianReweight", "DiscriminatorReweight", "KLIEPReweight",
                        "NearestNeighborReweight", "KMMReweight", "MMDTarSReweight")


NO_FIT = ("OTLabelProp", "JCPOTLabelProp", "Subsampler", "DomainSubsampler", "StratDomainSubsampler", "DensityReweight",
          "GaussianReweight", "DiscriminatorReweight", "KLIEPReweight", "NearestNeighborReweight", "KMMReweight", "MMDTarSReweight")


def gen_object(r, allow=("adapter", "est", "pipe", "sel"), task=None, only=None):
    """Draw an object spec (JSON)."""
    kinds = [k for k in allow for _ in range({"adapter": 4, "est": 2, "pipe": 6, "sel": 2}[k])]
    for _ in range(400):
        kind = r.choice(kinds)
        if kind == "adapter":
            e = ADAPTERS[r.choice(sorted(ADAPTERS))]
            if r.random() < (e.cost - 1) * 0.12:
                continue
            sp = {"kind": "adapter", "name": e.name, "cfg": r.choice(e.cfgs)}
            tasks = e.tasks
        elif kind == "est":
            e = ESTIMATORS[r.choice(sorted(ESTIMATORS))]
            if r.random() < (e.cost - 1) * 0.12:
                continue
            sp = {"kind": "est", "name": e.name, "cfg": r.choice(e.cfgs)}
            tasks = e.tasks
            if r.random() < 0.3:
                sp = {"kind": "pipe", "steps": [dict(sp)], "name": "pipe"}
        elif kind == "sel":
            sel = r.choice(["Shared", "PerDomain", "SelectSource", "SelectTarget", "SelectSourceTarget"])
            inner = r.choice(["lr", "nb", "stub", "tree", "scaler", "pca"])
            sp = {"kind": "sel", "name": sel, "inner": inner}
            tasks = ("bin", "multi")
            if inner not in ("scaler", "pca") and r.random() < 0.5:
                sp = {"kind": "pipe", "name": "pipe", "steps": [{"kind": "plain", "name": r.choice(["scaler", "minmax"])}, dict(sp)]}
        else:
            e = ADAPTERS[r.choice(sorted(ADAPTERS))]
            if e.name in ("Subsampler", "DomainSubsampler", "StratDomainSubsampler") and r.random() < 0.5:
                continue
            if r.random() < (e.cost - 1) * 0.12:
                continue
            tasks = tuple(t for t in e.tasks)
            tk = task or r.choice(tasks)
            if tk not in tasks:
                continue
            if e.name in PIPE_FUN and r.random() < 0.25 and tk != "reg":
                sp = {"kind": "fun", "name": e.name, "cfg": r.choice(e.cfgs)}
                if r.random() < 0.4:
                    sp["base"] = r.choice(["lr", "svc", "nb", "stub"])
            else:
                steps = []
                if r.random() < 0.45:
                    steps.append({"kind": "plain", "name": r.choice(["scaler", "minmax", "pca"])})
                if r.random() < 0.15:
                    steps.append({"kind": "sel", "name": "PerDomain", "inner": "scaler"})
                steps.append({"kind": "adapter", "name": e.name, "cfg": r.choice(e.cfgs)})
                final = r.choice(["lr", "svc", "nb", "tree", "stub", "lrc"]) if tk != "reg" else r.choice(["lin", "ridge", "svr", "stub"])
                steps.append({"kind": "final", "name": final, "reg": tk == "reg"})
                if r.random() < 0.1 and e.ydep is not None and e.name not in NO_FIT:
                    steps = steps[:-1]                   # a pipeline that only transforms
                sp = {"kind": "pipe", "name": "pipe", "steps": steps}
                if r.random() < 0.12:
                    sp["nested"] = True
            if only and not only(sp):
                continue
            return sp, tk
        if task is not None and task not in tasks:
            continue
        if only and not only(sp):
            continue
        return sp, (task or r.choice(tasks))
    raise RuntimeError("no object satisfies the filter")


def obj_multi_ok(sp):
    def one(s):
        if s["kind"] == "est":
            return ESTIMATORS[s["name"]].multi
        return True
    return all(one(s) for s in sp.get("steps", [sp]))


def classes_may_vary(sp):
    """Can the object meet two classes in one fit and three in the next?"""
    for s in sp.get("steps", [sp]):
        e = {"est": ESTIMATORS, "adapter": ADAPTERS, "fun": ADAPTERS}.get(s["kind"], {}).get(s["name"])
        if e is not None and not ("bin" in e.tasks and "multi" in e.tasks):
            return False
        if s.get("reg"):
            return False
    return True


def has_sel(sp, names=None):
    """Does the object contain a per-domain selector (which needs target labels)?"""
    return any(s["kind"] == "sel" and (names is None or s["name"] in names) for s in sp.get("steps", [sp]))


def needs_target_labels(sp):
    return any(s["kind"] == "sel" and s["name"] in ("PerDomain", "SelectTarget", "SelectSourceTarget")
               and s["inner"] not in ("scaler", "pca") for s in sp.get("steps", [sp]))


def obj_name(sp):
    if sp["kind"] in ("pipe",):
        return "+".join(s["name"] for s in sp["steps"])
    if sp["kind"] == "sel":
        return "%s(%s)" % (sp["name"], sp["inner"])
    if sp["kind"] == "fun":
        return sp["name"] + "()"
    return sp["name"]


class LabelShift(TransformerMixin, BaseEstimator):
    """A transformer that learns from whatever labels it is shown."""

    def fit(self, X, y=None):
        y = np.zeros(1) if y is None else np.asarray(y, dtype=float)
        self.shift_ = float(np.nanmean(y)) + 0.25 * float(np.isnan(y).mean())
        self.n_features_in_ = np.shape(X)[1]
        return self

    def transform(self, X):
        return X + self.shift_


def _plain(n):
    if n == "labels":
        return LabelShift()
    return {"scaler": lambda: StandardScaler(), "minmax": lambda: MinMaxScaler(),
            "pca": lambda: PCA(n_components=None, random_state=0)}[n]()


def _inner(n):
    if n in ("scaler", "minmax", "pca"):
        return _plain(n)
    return base_clf(n, weights=False)


def build(sp, memory=None):
    k = sp["kind"]
    if k == "adapter":
        return ADAPTERS[sp["name"]].build(sp["cfg"])
    if k == "est":
        return ESTIMATORS[sp["name"]].build(sp["cfg"])
    if k == "plain":
        return _plain(sp["name"])
    if k == "final":
        if sp.get("reg"):
            return base_reg(sp["name"])
        return base_clf(sp["name"])
    if k == "sel":
        if sp["name"] == "SelectSourceTarget":
            if sp["inner"] in ("scaler", "pca"):
                return SelectSourceTarget(_inner(sp["inner"]))
            return SelectSourceTarget(_inner(sp["inner"]), _inner("nb"))
        cls = {"Shared": Shared, "PerDomain": PerDomain, "SelectSource": SelectSource, "SelectTarget": SelectTarget}[sp["name"]]
        kw = {}
        if sp["name"] == "PerDomain":
            kw["mask_target_labels"] = False
        if sp.get("mask") is not None:
            kw["mask_target_labels"] = sp["mask"]
        return cls(_inner(sp["inner"]), **kw)
    if k == "fun":
        fn, extra = PIPE_FUN[sp["name"]]
        kw = _resolve(sp["cfg"])
        kw.pop("test_time", None)
        base = base_clf(sp["base"]) if sp.get("base") else None
        import inspect
        ok = set(inspect.signature(fn).parameters)
        kw = {a: b for a, b in kw.items() if a in ok}
        kw.update(extra)
        return fn(base, **kw) if base is not None else fn(**kw)
    if k == "pipe":
        steps = [build(s) for s in sp["steps"]]
        kw = {}
        if memory is not None:
            kw["memory"] = memory
        if sp.get("mask") is not None:
            kw["mask_target_labels"] = sp["mask"]
        if sp.get("nested") and len(steps) > 1:
            inner = make_da_pipeline(*steps[:-1])
            return make_da_pipeline(inner, steps[-1], **kw)
        return make_da_pipeline(*steps, **kw)
    raise RuntimeError(k)


def shrink_object(sp):
    if sp["kind"] == "pipe":
        for i in range(len(sp["steps"]) - 1):
            s = dict(sp)
            s["steps"] = sp["steps"][:i] + sp["steps"][i + 1:]
            if s["steps"]:
                yield s
        if sp.get("nested"):
            s = dict(sp)
            del s["nested"]
            yield s
        last = sp["steps"][-1]
        if last["kind"] == "final" and last["name"] not in ("lr", "lin"):
            s = dict(sp)
            s["steps"] = sp["steps"][:-1] + [dict(last, name="lin" if last.get("reg") else "lr")]
            yield s
        for st in sp["steps"]:
            if st["kind"] in ("adapter", "est"):
                yield dict(st)


# ----------------------------------------------------------- operations ----
def is_direct(sp):
    return sp["kind"] in ("adapter", "est")


def vary_calls(r, sp, ds):
    """How this user calls the object: without domain labels where they can be
    inferred, or with sample weights."""
    if all(d.get("masked") for d in ds) and r.random() < 0.06 and not needs_target_labels(sp):
        sp["nosd"] = "both"
    elif sp["kind"] != "est" and r.random() < 0.15 and not has_sel(sp, ("PerDomain",)):
        sp["nosd"] = "eval"
    last = sp.get("steps", [sp])[-1]
    if last["kind"] in ("est", "final") and last["name"] != "DASVM" and r.random() < 0.2:
        sp["sw"] = True


def do_fit(est, sp, D, how="fit"):
    """Fit an object the way its kind is meant to be fitted; returns the value."""
    X, y, sd = D["X"], D["y"], D["sd"]
    if sp.get("sw") and sp["kind"] in ("est", "pipe"):
        est.fit(X, y, sample_domain=sd, sample_weight=D["w"])
        return None
    if sp.get("nosd") == "both" and ((y == -1) | (y != y)).any():
        if sp["kind"] == "adapter" and (how == "fit_transform" or sp["name"] in NO_FIT[:5]):
            return est.fit_transform(X, y)
        if sp["kind"] == "sel" and sp["inner"] in ("scaler", "pca") and how == "fit_transform":
            return _container(est.fit_transform(X, y))
        est.fit(X, y)
        return None
    if sp["kind"] == "adapter":
        if how == "fit" and sp["name"] in NO_FIT[:5]:
            how = "fit_transform"
        if how == "fit_transform":
            return est.fit_transform(X, y, sample_domain=sd)
        est.fit(X, y, sample_domain=sd)
        return None
    if sp["kind"] == "est":
        est.fit(X, y, sample_domain=sd)
        return None
    if sp["kind"] == "sel" and sp["inner"] in ("scaler", "pca") and how == "fit_transform":
        return _container(est.fit_transform(X, y, sample_domain=sd))
    est.fit(X, y, sample_domain=sd)
    return None


def _container(c):
    if hasattr(c, "_features"):
        return {"features": c._features, "labels": c._labels, "meta": dict(c._metadata)}
    return c


EVAL_OPS = ["predict", "predict_proba", "decision_function", "score", "transform", "weights", "predict_log_proba"]


def ops_for(est, sp):
    """Evaluation operations this (fitted) object offers."""
    k = sp["kind"]
    out = []
    if k == "adapter":
        out.append("transform")
        if hasattr(est, "compute_weights"):
            out.append("weights")
        return out
    for m in ("predict", "predict_proba", "decision_function", "score", "predict_log_proba"):
        if m == "score" and has_sel(sp, ("PerDomain", "SelectSourceTarget")):
            continue          # these selectors do not route `score`
        if hasattr(est, m):
            out.append(m)
    if hasattr(est, "transform"):
        out.append("transform")
    return out


def do_op(est, sp, op, D, target_only=False):
    X, y, sd = D["X"], D["y_true"], D["sd"]
    if target_only:
        m = sd < 0
        X, y, sd = X[m], y[m], sd[m]
    k = sp["kind"]
    if sp.get("nosd") and k != "est" and op != "weights" and not (sd >= 0).any():
        args = (X, y) if op == "score" else (X,)
        return getattr(est, op)(*args)
    if k == "adapter":
        if op == "weights":
            if target_only:
                raise ValueError("weights are defined for source samples only")
            return est.compute_weights(X, y, sample_domain=sd)
        return est.transform(X, sample_domain=sd, allow_source=True)
    if k == "est":
        if op == "score":
            return est.score(X, y)
        return getattr(est, op)(X)
    if k == "sel":
        kw = {"sample_domain": sd}
        if op == "score":
            return est.score(X, y, **kw)
        return getattr(est, op)(X, **kw)
    kw = {"sample_domain": sd, "allow_source": True}
    if op == "score":
        return est.score(X, y, **kw)
    if op == "transform":
        return est.transform(X, **kw)
    return getattr(est, op)(X, **kw)


def seed_globals(s):
    import random as _r
    np.random.seed(s % (2 ** 31))
    _r.seed(s)
    import sys as _s
    t = _s.modules.get("torch")
    if t is not None:
        t.manual_seed(s)


def setup_process(torch_too=True):
    """Called once per worker: import everything that is imported lazily, then
    instrument, so that no import happens inside a run."""
    import warnings as w
    w.simplefilter("ignore")
    if torch_too:
        import torch
        torch.set_num_threads(1)
        import torch.optim  # noqa: F401
    warm()
    ENGINE.install()


def warm():
    """Touch lazily imported third-party pieces once."""
    D = make_data({"seed": 1, "task": "bin", "d": 2, "ns": 8, "nt": 8, "nsrc": 1, "ntgt": 1, "layout": "block", "order": "C", "scale": 1.0})
    for name in ("OTMapping", "MMDLSConS", "TSL", "KLIEPReweight"):
        e = ADAPTERS[name]
        try:
            do_fit(e.build(e.cfgs[0]), {"kind": "adapter", "name": name}, D)
        except Exception:                                # noqa: BLE001
            pass


__all__ = [n for n in globals() if not n.startswith("__")]
