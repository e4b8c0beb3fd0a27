"""Library operations that are not methods of one fitted object: splitters,
scorers, cross-validation, array utilities, data set containers, generators."""
import numpy as np
from sklearn.linear_model import LogisticRegression, Ridge
from sklearn.metrics import accuracy_score
from sklearn.model_selection import GridSearchCV, cross_validate, cross_val_score
from sklearn.preprocessing import StandardScaler

import skada
from skada import make_da_pipeline
from skada import metrics as M
from skada import model_selection as MS
from skada import utils as U
from skada.datasets import (
    DomainAwareDataset, make_dataset_from_moons_distribution, make_shifted_blobs, make_shifted_datasets,
    make_variable_frequency_dataset,
)

from sim import world as W


def splitters():
    return {
        "SourceTargetShuffleSplit": lambda s, n=3: MS.SourceTargetShuffleSplit(n, test_size=0.3, random_state=s),
        "DomainShuffleSplit": lambda s, n=3: MS.DomainShuffleSplit(n, test_size=0.3, random_state=s),
        "StratifiedDomainShuffleSplit": lambda s, n=3: MS.StratifiedDomainShuffleSplit(n, test_size=0.4, random_state=s),
        "LeaveOneDomainOut": lambda s, n=3: MS.LeaveOneDomainOut(n, test_size=0.3, random_state=s),
    }


def lodo_labels(sd, k=2):
    """LeaveOneDomainOut wants every domain both as a source and as a target."""
    out = sd.copy()
    g = np.random.RandomState(0)
    for i in range(len(sd)):
        dom = 1 + (i % k)
        out[i] = dom if (i // k) % 2 else -dom
    return out


def scorers():
    return {
        "SupervisedScorer": lambda s: M.SupervisedScorer(),
        "ImportanceWeightedScorer": lambda s: M.ImportanceWeightedScorer(),
        "PredictionEntropyScorer": lambda s: M.PredictionEntropyScorer(),
        "SoftNeighborhoodDensity": lambda s: M.SoftNeighborhoodDensity(),
        "DeepEmbeddedValidation": lambda s: M.DeepEmbeddedValidation(random_state=s),
        "CircularValidation": lambda s: M.CircularValidation(),
        "MixValScorer": lambda s: M.MixValScorer(random_state=s),
        "MixValScorerInter": lambda s: M.MixValScorer(alpha=0.3, ice_type="inter", random_state=s),
        "MaNoScorer": lambda s: M.MaNoScorer(),
    }


def scorer_with(name, o, seed):
    """The scorer with one of its options (o = 0: as it comes)."""
    from sklearn.neighbors import KernelDensity
    if name == "ImportanceWeightedScorer" and o:
        return M.ImportanceWeightedScorer(weight_estimator=KernelDensity(bandwidth=[0.5, 1.0, 2.0][o - 1]))
    if name == "DeepEmbeddedValidation" and o:
        return M.DeepEmbeddedValidation(domain_classifier=LogisticRegression(C=[0.1, 1.0, 5.0][o - 1]), random_state=o)
    if name == "PredictionEntropyScorer" and o:
        return M.PredictionEntropyScorer(reduction=["mean", "sum", "none"][o - 1])
    if name == "SoftNeighborhoodDensity" and o:
        return M.SoftNeighborhoodDensity(T=[0.05, 0.2, 1.0][o - 1])
    if name == "MaNoScorer" and o:
        return M.MaNoScorer(p=[2, 4, 4][o - 1], threshold=[0.75, 0.9, 50][o - 1])
    if name == "CircularValidation" and o > 1:
        return M.CircularValidation(source_scorer=accuracy_score)
    return scorers()[name](seed)


def score_kwargs(name, D):
    kw = {"sample_domain": D["sd"]}
    if name == "SupervisedScorer":
        kw["target_labels"] = D["y_true"]
    return kw


def score_y(name, D):
    if name == "CircularValidation":
        return D["y"]
    return D["y"]


def weighted_lr():
    return LogisticRegression().set_fit_request(sample_weight=True).set_score_request(sample_weight=True)


def scoring_pipe(kind):
    if kind == "plain":
        return make_da_pipeline(StandardScaler(), weighted_lr())
    if kind == "coral":
        return make_da_pipeline(StandardScaler(), skada.CORALAdapter(), weighted_lr())
    if kind == "reweight":
        return make_da_pipeline(skada.DensityReweightAdapter(), weighted_lr())
    if kind == "ot":
        return make_da_pipeline(skada.OTMappingAdapter(), weighted_lr())
    if kind == "perdomain":
        return make_da_pipeline(skada.PerDomain(StandardScaler()), weighted_lr())
    if kind == "stub":
        return make_da_pipeline(StandardScaler(), W.StubClassifier().set_fit_request(sample_weight=True))
    if kind == "labelprop":
        return make_da_pipeline(skada.OTLabelPropAdapter(), LogisticRegression())
    raise KeyError(kind)


# --- scorers that must not look at target labels (H07) -----------------------
def _unsup(name):
    def go(est, D, seed):
        y = D["y"]
        if name == "CircularValidation":
            # asks for masked target labels; mask here so that only what the
            # estimator learned could carry them
            y = y.copy()
            y[D["sd"] < 0] = -1
        sc = scorers()[name](seed % 1000)
        W.seed_globals(seed)
        return float(sc(est, D["X"], y, sample_domain=D["sd"]))
    return go


UNSUP_SCORERS = {n: _unsup(n) for n in ("PredictionEntropyScorer", "SoftNeighborhoodDensity", "DeepEmbeddedValidation",
                                        "CircularValidation", "MixValScorer", "MixValScorerInter", "MaNoScorer")}


# --- seeded operations (H06) -------------------------------------------------
def _split_op(name):
    def make(r, D):
        s = r.randrange(100)
        cv = splitters()[name](s)
        sd = lodo_labels(D["sd"]) if name == "LeaveOneDomainOut" else D["sd"]
        return lambda: [(a.copy(), b.copy()) for a, b in cv.split(D["X"], D["y"], sd)]
    return make


def _gen_op(fn, variants):
    def make(r, D):
        kw = dict(r.choice(variants), random_state=r.randrange(100))
        return lambda: fn(**kw)
    return make


def _scorer_op(name):
    def make(r, D):
        est = scoring_pipe(r.choice(["plain", "coral", "reweight", "ot"]))
        est.fit(D["X"], D["y"].copy(), sample_domain=D["sd"])
        sc = scorers()[name](r.randrange(100))
        y = D["y_true"].copy()
        if name == "CircularValidation":
            y[D["sd"] < 0] = -1
        kw = {"sample_domain": D["sd"]}
        if name == "SupervisedScorer":
            kw["target_labels"] = D["y_true"]
        return lambda: float(sc(est, D["X"], y, **kw))
    return make


def _cv_op(r, D):
    est = scoring_pipe(r.choice(["plain", "coral", "reweight"]))
    cv = splitters()[r.choice(["SourceTargetShuffleSplit", "DomainShuffleSplit"])](r.randrange(50))
    sc = {"pe": M.PredictionEntropyScorer(), "dev": M.DeepEmbeddedValidation(random_state=3), "mix": M.MixValScorer(random_state=4)}
    return lambda: {k: v for k, v in cross_validate(est, D["X"], D["y"].copy(), cv=cv, params={"sample_domain": D["sd"]}, scoring=sc).items() if k.startswith("test")}


def _masked(D):
    y = D["y_true"].copy()
    y[D["sd"] < 0] = -1
    return y


SEEDED = {"split:" + n: _split_op(n) for n in ("SourceTargetShuffleSplit", "DomainShuffleSplit", "StratifiedDomainShuffleSplit", "LeaveOneDomainOut")}
SEEDED.update({
    "make_shifted_blobs": _gen_op(make_shifted_blobs, [{"n_samples": 12, "centers": np.array([[0.0, 1.0], [2.0, 2.0]]), "noise": 0.1}, {"n_samples": 9, "centers": 3, "n_features": 3, "noise": 0.5}]),
    "make_shifted_datasets": _gen_op(make_shifted_datasets, [
        {"n_samples_source": 2, "n_samples_target": 2, "shift": sh, "label": lb, "noise": nz, "return_X_y": True}
        for sh in ("covariate_shift", "target_shift", "concept_drift", "subspace") for lb in ("binary", "multiclass", "regression") for nz in (None, 0.3)
        if not (sh == "subspace" and lb == "regression")]),
    "make_moons": _gen_op(make_dataset_from_moons_distribution, [{"n_samples_source": 4, "n_samples_target": 5, "noise": 0.2}, {"pos_source": [0.1, 0.9], "pos_target": [0.4], "noise": None}]),
    "make_freq": _gen_op(make_variable_frequency_dataset, [{"n_samples_source": 2, "n_samples_target": 3, "noise": 0.1}, {"n_channels": 2, "n_frequencies": 2, "noise": 0.2, "n_samples_source": 2}]),
    "cross_validate": _cv_op,
})


def _kmeans_op(r, D):
    import torch
    from skada.deep.utils import SphericalKMeans
    km = SphericalKMeans(n_clusters=r.choice([2, 3]), n_init=r.choice([1, 3]), max_iter=r.choice([1, 5]), random_state=r.randrange(100))
    X = torch.tensor(D["X"], dtype=torch.float32)

    def go():
        km.fit(X)
        return [km.cluster_centers_.numpy().copy(), km.predict(X).numpy(), float(km.inertia_)]
    return go


SEEDED["SphericalKMeans"] = _kmeans_op


def _load_op(kind):
    def make(r, D):
        import os
        import tempfile
        from . import fetch
        st = {"loader": kind, "dom": r.randrange(4), "home": "str", "shuffle": r.randrange(100), "xy": r.random() < 0.5, "all": r.random() < 0.3}
        root = tempfile.mkdtemp(prefix="home-", dir=os.environ.get("VERIF_SCRATCH"))
        cold = r.random() < 0.4
        if not cold:
            fetch.call({"loader": kind, "home": "str"}, root)      # installed by an earlier fetch

        def go():
            v = fetch.call(dict(st, dl=cold), root)
            if isinstance(v, tuple):
                return [np.array(a) for a in v]
            if hasattr(v, "domains_"):
                return [[np.array(a) for a in d] for d in v.domains_]
            return [np.array(v["X"]), np.array(v["y"])]
        return go
    return make


SEEDED.update({"load:" + k: _load_op(k) for k in ("surf", "decaf", "amazon", "home")})
SEEDED.update({"score:" + n: _scorer_op(n) for n in ("SupervisedScorer", "PredictionEntropyScorer", "SoftNeighborhoodDensity", "DeepEmbeddedValidation",
                                                     "CircularValidation", "MixValScorer", "MaNoScorer", "ImportanceWeightedScorer")})


# --- operations that receive the caller's arrays (H01) ------------------------
def caller_array_ops(what, r, D):
    X, y, sd = D["X"], D["y"], D["sd"]
    if what == "split":
        n = r.choice(["SourceTargetShuffleSplit", "DomainShuffleSplit", "StratifiedDomainShuffleSplit", "LeaveOneDomainOut"])
        cv = splitters()[n](r.randrange(50))
        if n == "LeaveOneDomainOut":
            D["sd"] = D["sd"]
        return n, [lambda: list(cv.split(X, y, sd)), lambda: cv.get_n_splits(X, y, sd)]
    if what == "scorer":
        n = r.choice(sorted(scorers()))
        sc = scorers()[n](r.randrange(50))
        est = scoring_pipe(r.choice(["plain", "coral", "reweight", "ot", "stub"]))
        est.fit(X, y.copy(), sample_domain=sd)
        return n, [lambda: sc(est, X, y, **score_kwargs(n, D))]
    if what == "cv":
        n = r.choice(["PredictionEntropyScorer", "MixValScorer", "DeepEmbeddedValidation", "SoftNeighborhoodDensity"])
        kind = r.choice(["plain", "coral", "reweight", "labelprop"])
        cvn = r.choice(["SourceTargetShuffleSplit", "DomainShuffleSplit"])
        s = r.randrange(50)
        if r.random() < 0.5:
            return "cross_validate", [lambda: cross_validate(scoring_pipe(kind), X, y, cv=splitters()[cvn](s, 2), params={"sample_domain": sd}, scoring=scorers()[n](s))]
        return "grid_search", [lambda: GridSearchCV(make_da_pipeline(StandardScaler(), weighted_lr()), {"logisticregression__C": [0.1, 1.0]},
                                                    cv=splitters()[cvn](s, 2), scoring=scorers()[n](s), error_score="raise").fit(X, y, sample_domain=sd)]
    if what == "dataset":
        m = sd > 0

        def ds():
            d = DomainAwareDataset()
            d.add_domain(X, y, domain_name="a")
            d.add_domain(X, y, domain_name="b")
            return d

        def packed(mask):
            Xp, yp, sp = ds().pack(as_sources=["a"], as_targets=["b"], mask_target_labels=mask)
            return Xp

        def scribble():
            # the caller may do what it likes with what it was given back
            Xp, yp, sp = ds().pack(as_sources=["a"], as_targets=["b"], mask_target_labels=True)
            return Xp.shape
        return "DomainAwareDataset.pack", [lambda: packed(True), lambda: packed(False), scribble,
                                           lambda: ds().pack_lodo(return_X_y=True),
                                           lambda: ds().merge(DomainAwareDataset([(X, y, "c")]))]
    if what == "deep":
        return deep_caller_ops(r, D)
    # array utilities and solvers
    m = U.extract_source_indices(sd)
    g = np.random.RandomState(r.randrange(1000))
    ns, nt = int(m.sum()), int((~m).sum())
    D.update(Xs=X[m], ys=y[m].astype(float), Xt=X[~m], yt=y[~m], ws=g.rand(ns) + 0.2, wt=g.rand(nt) + 0.2, c=g.randn(4), A=g.rand(2, 4),
             b=np.ones(2) * 9.0, lb=np.zeros(4), ub=np.ones(4), x0=np.full(4, 0.25), Q=np.eye(4) * 2, Aeq=np.ones((1, 4)), beq=np.ones(1),
             wn=g.rand(4) / 4)
    yc = D["ys"].astype(int) if len(np.unique(D["ys"])) < 5 else (D["ys"] > 0).astype(int)
    D["yc"] = yc
    skw = r.choice([{}, {"ws": D["ws"]}, {"wt": D["wt"]}, {"ws": D["ws"], "wt": D["wt"]}])

    def minimise():
        import torch
        return U.torch_minimize(lambda x, z: ((x - 1.0) ** 2).sum() + (z ** 2).sum(), (D["x0"], D["c"]))
    fns = {
        "source_target_split": lambda: U.source_target_split(X, y, D["w"], sample_domain=sd),
        "per_domain_split": lambda: U.per_domain_split(X, y, sample_domain=sd),
        "source_target_merge": lambda: U.source_target_merge(X[m], X[~m], y[m], y[~m], sample_domain=sd),
        "check_X_y_domain": lambda: U.check_X_y_domain(X, y, sd),
        "check_X_domain": lambda: U.check_X_domain(X, sd),
        "extract_domains_indices": lambda: U.extract_domains_indices(sd, True),
        "find_y_type": lambda: skada._utils._find_y_type(y),
        "select_domain": lambda: skada.datasets.select_domain({"a": 1, "b": 2}, sd, "a"),
        "source_target_merge_w": lambda: U.source_target_merge(D["Xs"], D["Xt"], D["ys"], D["yt"], D["ws"], D["wt"], sample_domain=sd),
        "qp_solve": lambda: U.qp_solve(D["Q"], D["c"], D["A"], D["b"], D["Aeq"], D["beq"], D["lb"], D["ub"], D["x0"]),
        "qp_solve_fw": lambda: U.qp_solve(D["Q"], D["c"], Aeq=D["Aeq"], beq=D["beq"], lb=D["lb"], ub=D["ub"], x0=D["x0"], solver="frank-wolfe"),
        "frank_wolfe": lambda: U.frank_wolfe(lambda x: D["Q"] @ x + D["c"], D["c"], clb=0.5, cub=1.0, x0=D["wn"]),
        "torch_minimize": minimise,
        "solve_jdot_regression": lambda: skada._ot.solve_jdot_regression(Ridge(), D["Xs"], D["ys"], D["Xt"], n_iter_max=3, **skw),
        "solve_jdot_classification": lambda: skada._ot.solve_jdot_classification(LogisticRegression(), D["Xs"], D["yc"], D["Xt"], n_iter_max=3, **skw),
    }
    n = r.choice(sorted(fns) + ["solve_jdot_regression", "solve_jdot_classification"])
    return n, [fns[n]]


def deep_caller_ops(r, D):
    """Deep nets, data sets and losses on arrays (and tensors over arrays) the caller owns."""
    import torch

    from props import deepzoo as Z
    from skada.deep import losses as L
    from skada.deep.base import DeepDADataset
    D["X"], D["w"] = D["X"].astype(np.float32), D["w"].astype(np.float32)
    D["y"], D["y_true"] = D["y"].astype(np.int64), D["y_true"].astype(np.int64)
    c = Z.gen_net(r)
    c["k"] = 2
    net = Z.build_net(c, D["X"].shape[1])
    X, sd, w = D["X"], D["sd"], D["w"]
    y = D["y_true"] if r.random() < 0.5 or c["name"] == "TargetOnly" else D["y"]
    g = np.random.RandomState(r.randrange(1000))
    D.update(fs=g.randn(8, 3).astype(np.float32), ft=g.randn(8, 3).astype(np.float32), ly=g.randint(0, 2, 8), lg=g.randn(8, 2).astype(np.float32),
             mo=(g.rand(8, 2) + 0.1).astype(np.float32), mf=g.randn(8, 3).astype(np.float32))
    T = torch.from_numpy
    form = r.choice(["array", "dict", "dataset", "tensor"])

    def inp(labels=True, weights=False):
        yy, ww = (y if labels else None), (w if weights else None)
        if form == "dict":
            d = {"X": X, "sample_domain": sd}
            if labels:
                d["y"] = y
            return d, None, None
        if form == "dataset":
            return DeepDADataset(X, yy, sd, ww), None, None
        if form == "tensor":
            return T(X), T(y) if labels else None, T(sd)
        return X, yy, sd

    def fit():
        a = inp()
        return net.fit(a[0], a[1], a[2]) and None

    def partial():
        return net.partial_fit(DeepDADataset(X, y, sd), None, is_fit=True, epochs=1) and None

    def ev(name):
        def go():
            a = inp(labels=False)
            if name == "predict_features":
                return net.predict_features(a[0])
            if name == "score":
                return net.score(a[0], y, a[2], allow_source=True)
            return getattr(net, name)(a[0], a[2], allow_source=r.random() < 0.7)
        return go

    def rows():
        ds, more = DeepDADataset(X, y, sd, w), DeepDADataset(X, None, sd)
        ds.select(lambda v: v > 0, "y")
        ds.merge(ds, out=False)
        more.add_weights(w)
        more.merge(ds, keep_weights=True, out=False)
        ds.per_domain_split()
        ds.select_target().as_dict()
        return len(DeepDADataset({"X": X, "y": y, "sample_domain": sd, "sample_weight": w}).add_domain((X, y, sd)))
    ls = {
        "deepcoral_loss": lambda: L.deepcoral_loss(T(D["fs"]), T(D["ft"]), g.rand() < 0.5),
        "deepjdot_loss": lambda: L.deepjdot_loss(T(D["ly"]), T(D["lg"]), T(D["fs"]), T(D["ft"]), 0.5, 0.3),
        "dan_loss": lambda: L.dan_loss(T(D["fs"]), T(D["ft"])),
        "mcc_loss": lambda: L.mcc_loss(T(D["lg"]), T=2.0),
        "probability_scaling": lambda: L.probability_scaling(T(D["lg"]), 2.5),
        "gda_loss": lambda: L.gda_loss(T(D["fs"]), T(D["ft"]), r.choice(["euc", "gauss"])),
        "nap_loss": lambda: L.nap_loss(T(D["ft"]), T(D["lg"]), T(D["mf"]), T(D["mo"]), torch.arange(8), K=2),
    }
    n = r.choice(sorted(ls))
    x = r.random()
    if x < 0.25:
        return n, [ls[n]]
    if x < 0.4:
        return "DeepDADataset", [rows]
    fns = [fit] + [r.choice([fit, partial] + [ev(e) for e in ("predict", "predict_proba", "predict_features", "score")]) for _ in range(r.choice([1, 2, 3]))]
    return c["name"], fns
