"""Values -> comparable form.  `same` compares two observed outcomes; `digest`
is an exact fingerprint used for 'was this object modified' questions."""
import hashlib
import numbers

import numpy as np


class Raised:
    """Outcome of an operation that raised."""

    def __init__(self, exc):
        self.kind = type(exc).__name__
        self.msg = str(exc)[:200]

    def __repr__(self):
        return "Raised(%s: %s)" % (self.kind, self.msg)


def outcome(fn):
    try:
        return fn()
    except Exception as e:                               # noqa: BLE001
        return Raised(e)


def _is_tensor(x):
    return type(x).__module__.startswith("torch") and hasattr(x, "detach") and hasattr(x, "shape")


def _np(x):
    if _is_tensor(x):
        return x.detach().cpu().numpy()
    return x


def same(a, b, rtol=1e-6, atol=1e-8, path=""):
    """None if equal, else a short text saying where they differ."""
    a, b = _np(a), _np(b)
    if isinstance(a, Raised) or isinstance(b, Raised):
        if isinstance(a, Raised) and isinstance(b, Raised):
            return None if a.kind == b.kind else "%s: %r vs %r" % (path, a, b)
        return "%s: %s vs %s" % (path, brief(a), brief(b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return "%s: type %s vs %s" % (path, type(a).__name__, type(b).__name__)
        if a.shape != b.shape:
            return "%s: shape %s vs %s" % (path, a.shape, b.shape)
        if a.dtype.kind != b.dtype.kind or (a.dtype.kind in "fc" and a.dtype != b.dtype):
            return "%s: dtype %s vs %s" % (path, a.dtype, b.dtype)
        if a.dtype.kind in "fc":
            if a.size == 0:
                return None
            scale = np.nanmax(np.abs(b[np.isfinite(b)])) if np.isfinite(b).any() else 0.0
            ok = np.isclose(a, b, rtol=rtol, atol=atol + rtol * float(scale), equal_nan=True)
            if ok.all():
                return None
            i = np.argwhere(~ok)[0]
            return "%s: %d of %d values differ, first at %s: %r vs %r" % (
                path, int((~ok).sum()), a.size, tuple(int(v) for v in i), a[tuple(i)].item(), b[tuple(i)].item())
        if a.dtype.kind == "O":
            if a.size != b.size:
                return path + ": size"
            for k, (u, v) in enumerate(zip(a.ravel(), b.ravel())):
                d = same(u, v, rtol, atol, path + "[%d]" % k)
                if d:
                    return d
            return None
        if np.array_equal(a, b):
            return None
        i = np.argwhere(a != b)[0]
        return "%s: %d of %d values differ, first at %s: %r vs %r" % (
            path, int((a != b).sum()), a.size, tuple(int(v) for v in i), a[tuple(i)].item(), b[tuple(i)].item())
    if isinstance(a, dict) and isinstance(b, dict):
        if list(map(str, a)) != list(map(str, b)):
            return "%s: keys %s vs %s" % (path, list(a), list(b))
        for k in a:
            d = same(a[k], b[k], rtol, atol, "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d vs %d" % (path, len(a), len(b))
        for i, (u, v) in enumerate(zip(a, b)):
            d = same(u, v, rtol, atol, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return None if a == b or (a is None and b is None) else "%s: %r vs %r" % (path, a, b)
    if isinstance(a, numbers.Number) and isinstance(b, numbers.Number):
        if a == b or (a != a and b != b):
            return None
        if abs(a - b) <= atol + rtol * max(abs(a), abs(b)):
            return None
        return "%s: %r vs %r" % (path, a, b)
    if type(a) is type(b) and isinstance(a, (str, bytes)):
        return None if a == b else "%s: %r vs %r" % (path, a, b)
    if hasattr(a, "__dict__") and type(a) is type(b):
        return same(_public(a), _public(b), rtol, atol, path + "<%s>" % type(a).__name__)
    try:
        return None if a == b else "%s: %r vs %r" % (path, brief(a), brief(b))
    except Exception:                                    # noqa: BLE001
        return None


def _public(o):
    return {k: v for k, v in sorted(vars(o).items())}


def brief(x, n=110):
    s = repr(_np(x)).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


def digest(x):
    h = hashlib.sha1()
    _feed(h, x, 0, set())
    return h.hexdigest()


def _feed(h, x, depth, seen):
    if depth > 12:
        return
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
        h.update(repr((type(x).__name__, x)).encode())
        return
    if _is_tensor(x):
        x = x.detach().cpu().numpy()
    if isinstance(x, np.ndarray):
        h.update(("nd%s%s" % (x.shape, x.dtype)).encode())
        if x.dtype.kind == "O":
            for v in x.ravel():
                _feed(h, v, depth + 1, seen)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
        return
    if isinstance(x, np.generic):
        h.update(("g%s%r" % (x.dtype, x.item())).encode())
        return
    if id(x) in seen:
        h.update(b"cycle")
        return
    seen = seen | {id(x)}
    if isinstance(x, dict):
        h.update(b"{")
        for k in x:
            _feed(h, k if isinstance(k, (str, int, float, tuple)) else str(k), depth + 1, seen)
            _feed(h, x[k], depth + 1, seen)
        h.update(b"}")
        return
    if isinstance(x, (list, tuple)):
        h.update(type(x).__name__.encode() + b"[")
        for v in x:
            _feed(h, v, depth + 1, seen)
        h.update(b"]")
        return
    if isinstance(x, (set, frozenset)):
        for v in sorted(x, key=repr):
            _feed(h, v, depth + 1, seen)
        return
    if isinstance(x, np.random.RandomState):
        _feed(h, x.get_state(legacy=True), depth + 1, seen)
        return
    if isinstance(x, type) or callable(x) and not hasattr(x, "get_params"):
        h.update(getattr(x, "__qualname__", type(x).__name__).encode())
        if hasattr(x, "state_dict"):
            _feed(h, {k: v for k, v in x.state_dict().items()}, depth + 1, seen)
        return
    if hasattr(x, "tocsr"):
        _feed(h, x.toarray(), depth + 1, seen)
        return
    if hasattr(x, "columns") and hasattr(x, "to_numpy"):
        _feed(h, list(map(str, x.columns)), depth + 1, seen)
        _feed(h, x.to_numpy(), depth + 1, seen)
        return
    h.update(type(x).__qualname__.encode())
    if hasattr(x, "__dict__"):
        _feed(h, _public(x), depth + 1, seen)


def params_view(est, _depth=0):
    """Constructor parameters, with nested estimators shown as (class, params)
    and arrays by value -- *not* their fitted attributes."""
    out = {}
    try:
        p = est.get_params(deep=False)
    except Exception as e:                               # noqa: BLE001
        return {"get_params": "raised %s" % type(e).__name__}
    for k in sorted(p):
        out[k] = _pv(p[k], _depth + 1)
    return out


def _pv(v, depth):
    if depth > 8:
        return "..."
    if isinstance(v, type):
        return v.__qualname__
    if hasattr(v, "get_params"):
        return [type(v).__qualname__, params_view(v, depth)]
    if isinstance(v, (list, tuple)):
        return [_pv(u, depth + 1) for u in v]
    if isinstance(v, dict):
        return {str(k): _pv(u, depth + 1) for k, u in v.items()}
    if isinstance(v, np.ndarray):
        return v.copy()
    if _is_tensor(v):
        return v.detach().clone().numpy()
    if isinstance(v, (int, float, str, bool, type(None), complex, np.generic)):
        return v
    return type(v).__qualname__
