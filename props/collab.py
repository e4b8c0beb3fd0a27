"""Seam in front of the numerical collaborators the library calls: solvers of
POT, numpy, scipy and the estimators it is given.  Counting and failing happens
in the attribute of the *library's* module, i.e. where its own code looks the
name up, or in the method of the scikit-learn class."""
import contextlib
import sys

import numpy as np

from sim import world as W

_METHODS = ("fit", "fit_transform", "predict", "predict_proba", "transform", "decision_function", "score_samples", "kneighbors", "score")


class _Watch:
    def __init__(self, fail_at, exc):
        self.fail_at, self.exc = fail_at, exc
        self.n, self.fired, self.names, self.depth = 0, 0, [], 0

    def call(self, name, fn, a, kw):
        if self.depth:                                   # only calls made by the library itself
            return fn(*a, **kw)
        self.n += 1
        self.names.append(name)
        if self.fail_at is not None and self.n == self.fail_at:
            self.fired += 1
            raise self.exc("injected failure in %s (call %d)" % (name, self.n))
        self.depth += 1
        try:
            return fn(*a, **kw)
        finally:
            self.depth -= 1


def _targets():
    """(owner, attribute, label) triples to wrap."""
    import ot
    import scipy.linalg
    import scipy.optimize
    import sklearn.linear_model as lm
    from sklearn.decomposition import PCA
    from sklearn.naive_bayes import GaussianNB
    from sklearn.neighbors import KernelDensity, KNeighborsClassifier
    from sklearn.neural_network import MLPClassifier
    from sklearn.preprocessing import StandardScaler
    from sklearn.svm import SVC, SVR
    from sklearn.tree import DecisionTreeClassifier
    out = []
    for cls in (lm.LogisticRegression, lm.LinearRegression, lm.Ridge, PCA, GaussianNB, KernelDensity, KNeighborsClassifier, MLPClassifier,
                StandardScaler, SVC, SVR, DecisionTreeClassifier, W.StubClassifier, W.StubRegressor, ot.da.EMDTransport, ot.da.SinkhornTransport):
        for m in _METHODS:
            if m in cls.__dict__:
                out.append((cls, m, "%s.%s" % (cls.__name__, m)))
    for mod, names in ((ot, ("emd", "sinkhorn", "dist", "emd2", "unif")), (ot.da, ("sinkhorn_lpl1_mm", "sinkhorn_l1l2_gl", "OT_mapping_linear")),
                       (np.linalg, ("inv", "eigh", "eig", "solve", "svd", "pinv", "det")), (scipy.linalg, ("eigh", "eig", "solve", "svd", "sqrtm", "inv")),
                       (scipy.optimize, ("minimize", "linprog"))):
        for n in names:
            if hasattr(mod, n):
                out.append((mod, n, "%s.%s" % (mod.__name__, n)))
    return out


@contextlib.contextmanager
def watch(fail_at=None, exc=RuntimeError):
    w = _Watch(fail_at, exc)
    undo = []
    originals = {}
    for owner, attr, label in _targets():
        orig = owner.__dict__[attr] if isinstance(owner, type) else getattr(owner, attr)
        if not callable(orig):
            continue

        def mk(orig, label):
            def wrapped(*a, **kw):
                return w.call(label, orig, a, kw)
            for at in ("__name__", "__doc__", "__module__", "__wrapped__", "__signature__"):
                try:
                    setattr(wrapped, at, getattr(orig, at) if at != "__wrapped__" else orig)
                except (AttributeError, TypeError):
                    pass
            return wrapped
        new = mk(orig, label)
        setattr(owner, attr, new)
        undo.append((owner, attr, orig))
        if not isinstance(owner, type):
            originals[id(orig)] = new
    # names the library imported with `from x import y`
    for mname, mod in list(sys.modules.items()):
        if mname.startswith("skada") and mod is not None:
            for k, v in list(vars(mod).items()):
                if id(v) in originals and callable(v):
                    setattr(mod, k, originals[id(v)])
                    undo.append((mod, k, v))
    try:
        yield w
    finally:
        for owner, attr, orig in reversed(undo):
            setattr(owner, attr, orig)
