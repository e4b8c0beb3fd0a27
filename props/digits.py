"""The MNIST/USPS loader over the simulated network (part of F01 and F02).

torchvision's own downloading code runs for real; the server behind urlopen
holds miniature files in the published formats, whose md5 is reported as the
published one.  Only the network fails here: torchvision unpacks in place, so
kills and full disks inside it are its own affair."""
import bz2
import gzip
import hashlib
import os
import shutil
import struct
import tempfile
import types
from urllib.error import URLError

import numpy as np
import torchvision.datasets as TV
import torchvision.datasets.utils as TU

import skada.datasets as DS
from props.common import outcome_all
from sim import world as W
from sim.canon import Raised
from sim.engine import ENGINE

FILES = {}       # file name -> bytes
TRUTH = {}       # (domain, train) -> (images as loaded, labels)
POL = {"kind": "ok"}
COUNT = {"n": 0}


def _idx(a):
    head = struct.pack(">HBB", 0, 8, a.ndim) + b"".join(struct.pack(">I", n) for n in a.shape)
    return gzip.compress(head + a.astype(np.uint8).tobytes(), mtime=0)


def build():
    g = np.random.RandomState(5)
    for part, train, n in (("train", True, 23), ("t10k", False, 14)):
        img, lab = g.randint(0, 256, (n, 28, 28)), np.concatenate([np.arange(10), g.randint(0, 10, n - 10)])
        FILES[part + "-images-idx3-ubyte.gz"], FILES[part + "-labels-idx1-ubyte.gz"] = _idx(img), _idx(lab)
        TRUTH["mnist", train] = ((img / 255.0 - 0.1307) / 0.3081, lab)
    for name, train, n in (("usps.bz2", True, 19), ("usps.t.bz2", False, 12)):
        raw, lab = np.round(g.rand(n, 256) * 2 - 1, 4), np.concatenate([np.arange(10), g.randint(0, 10, n - 10)])
        lines = ["%d %s" % (lab[i] + 1, " ".join("%d:%.4f" % (j + 1, raw[i, j]) for j in range(256))) for i in range(n)]
        FILES[name] = bz2.compress(("\n".join(lines) + "\n").encode())
        img = ((np.array([["%.4f" % v for v in r] for r in raw]).astype(np.float32).reshape(-1, 16, 16) + 1) / 2 * 255).astype(np.uint8)
        full = np.zeros((n, 28, 28))
        full[:, 6:22, 6:22] = img / 255.0
        TRUTH["usps", train] = ((full - 0.1307) / 0.3081, lab)


class Response:
    def __init__(self, url, data, cut=None, err=None):
        self.url, self.data, self.length, self.at, self.err = url, data if cut is None else data[:cut], len(data), 0, err

    def read(self, n=-1):
        ENGINE.point("net:chunk")
        if self.at >= len(self.data) and self.err:
            raise self.err
        b = self.data[self.at:] if n < 0 else self.data[self.at:self.at + min(n, max(1, len(self.data) // 3))]
        self.at += len(b)
        return b

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def urlopen(req, *a, **k):
    url = getattr(req, "full_url", req)
    head = getattr(req, "headers", {}).get("Method") == "HEAD"
    name = url.rsplit("/", 1)[-1]
    ENGINE.point("net:connect")
    if name not in FILES:
        raise URLError("simulated 404 for %r" % (url,))
    data, p = FILES[name], POL
    if head:
        return Response(url, b"")
    COUNT["n"] += 1
    hit = p["kind"] != "ok" and COUNT["n"] > p.get("after", 0) and (p["kind"] == "down" or COUNT["n"] <= p.get("after", 0) + p.get("n", 1))
    if not hit:
        return Response(url, data)
    p["fired"] = p.get("fired", 0) + 1
    kind = p["kind"]
    if kind in ("down", "flaky"):
        raise URLError("simulated network down")
    if kind == "timeout":
        raise TimeoutError("simulated timeout")
    i = min(len(data) - 1, int(p["u"] * len(data)))
    if kind == "corrupt":
        return Response(url, data[:i] + bytes([data[i] ^ 0x41]) + data[i + 1:])
    if kind == "html":
        return Response(url, b"<html>busy</html>")
    if kind == "trunc":
        return Response(url, data, i)
    return Response(url, data, i, ConnectionResetError(104, "simulated reset"))


def setup():
    if FILES:
        return
    build()
    pub = dict((f, m) for f, m in TV.MNIST.resources)
    pub.update((f, m) for _, f, m in TV.USPS.split_list.values())
    real = {hashlib.md5(FILES[f]).hexdigest(): m for f, m in pub.items()}
    md5 = TU.calculate_md5
    TU.calculate_md5 = lambda *a, **k: (lambda h: real.get(h, h))(md5(*a, **k))
    # torchvision sees the simulated network; the rest of the process its own
    TU.urllib = types.SimpleNamespace(request=types.SimpleNamespace(urlopen=urlopen, Request=__import__("urllib.request").request.Request),
                                      error=__import__("urllib.error").error)
    TU.tqdm = type("tqdm", (), {"__init__": lambda self, *a, **k: None, "__enter__": lambda self: self, "__exit__": lambda *a: False, "update": lambda *a: None})


def gen_call(r):
    return {"train": r.random() < 0.4, "k": r.choice([10, 10, 5, 3, 2, 1]), "n": r.choice([1, 1, 1, 0.5, 0.3]), "rs": r.choice([0, 1, 7]),
            "form": r.choice(["xy", "all", "dataset"])}


def gen(r):
    steps = []
    for _ in range(r.choice([1, 1, 2, 3])):
        st = gen_call(r)
        if r.random() < 0.6:
            st["net"] = {"kind": r.choice(["down", "flaky", "timeout", "reset", "trunc", "corrupt", "html"]), "n": r.choice([1, 2, 2, 6]),
                         "after": r.choice([0, 0, 1, 3, 4]), "u": round(r.random(), 4)}
        steps.append(st)
    return {"digits": True, "steps": steps + [gen_call(r)]}


def load(st):
    kw = dict(n_samples=st["n"], n_classes=st["k"], train=st["train"], random_state=st["rs"])
    if st["form"] == "dataset":
        d = DS.load_mnist_usps(return_dataset=True, **kw)
        (Xm, ym), (Xu, yu) = d.get_domain("mnist"), d.get_domain("usps")
    elif st["form"] == "all":
        b = DS.load_mnist_usps(return_X_y=False, **kw)
        X, y, sd = np.asarray(b["X"]), np.asarray(b["y"]), np.asarray(b["sample_domain"])
        Xm, ym, Xu, yu = X[sd >= 0], y[sd >= 0], X[sd < 0], y[sd < 0]
    else:
        X, y, sd = DS.load_mnist_usps(return_X_y=True, **kw)
        X, y, sd = np.asarray(X), np.asarray(y), np.asarray(sd)
        Xm, ym, Xu, yu = X[sd >= 0], y[sd >= 0], X[sd < 0], y[sd < 0]
    return {"mnist": (np.asarray(Xm), np.asarray(ym)), "usps": (np.asarray(Xu), np.asarray(yu))}


def judge(st, got):
    for dom in ("mnist", "usps"):
        X, y = got[dom]
        tx, ty = TRUTH[dom, st["train"]]
        keep = ty < st["k"]
        tx, ty = tx[keep], ty[keep]
        want = int(st["n"] * len(ty))
        if len(X) != want or len(y) != want:
            return "%s: %d samples and %d labels instead of %d" % (dom, len(X), len(y), want)
        used = set()
        for i in range(want):
            m = [j for j in range(len(ty)) if ty[j] == y[i] and np.allclose(X[i].reshape(28, 28), tx[j], atol=1e-4) and j not in used]
            if not m:
                return "%s: sample %d with label %s is not one of the published ones (or is returned twice)" % (dom, i, y[i])
            used.add(m[0])
    return None


def torn(root):
    """torchvision keeps a damaged USPS download and never looks at it again."""
    return [f for f in ("usps.bz2", "usps.t.bz2") for p in [os.path.join(root, "datasets", f)]
            if os.path.exists(p) and open(p, "rb").read() != FILES[f]]


def run(spec, out, pid):
    root, cwd = tempfile.mkdtemp(prefix="digits-", dir=os.environ.get("VERIF_SCRATCH")), os.getcwd()
    try:
        os.chdir(root)
        last = len(spec["steps"]) - 1
        first = {}
        for i, st in enumerate(spec["steps"]):
            POL.clear()
            POL.update(st.get("net") or {"kind": "ok"})
            COUNT["n"] = 0
            W.seed_globals(i)
            bad = torn(root)
            v = outcome_all(lambda: load(st), out)
            fired = POL.get("fired", 0)
            if fired:
                out.hit("fault:net-" + st["net"]["kind"], fired)
                out.nontrivial = True
            out.note(i, st, fired, type(v.exc if hasattr(v, "exc") else v).__name__ if isinstance(v, Raised) else "ok")
            if isinstance(v, Raised):
                if i == last and pid == "F02":
                    sig = "F02:digits:damaged-usps-kept" if bad else "F02:digits:not-healed"
                    out.fail(sig, "a fault-free load_mnist_usps after network faults raised %s (damaged files in the folder: %s)" % (v, bad))
                elif not fired and not bad:
                    out.fail(pid + ":digits:raises", "load_mnist_usps(%s) without any fault raised %s" % (st, v))
                if out.viol:
                    return
                continue
            why = judge(st, v)
            if why:
                out.fail(pid + ":digits:damaged", "load_mnist_usps(%s) returned something else than the published digits: %s" % (st, why))
                return
            key = (st["train"], st["k"], st["n"], st["rs"])
            ref = first.setdefault(key, v)
            if any(not np.array_equal(ref[d][j], v[d][j]) for d in v for j in (0, 1)):
                out.fail(pid + ":digits:unstable", "load_mnist_usps(%s) returned another selection than before" % (st,))
                return
        if pid == "F02" and not torn(root):
            POL.clear()
            POL.update({"kind": "down", "after": 0})
            COUNT["n"] = 0
            v = outcome_all(lambda: load(dict(spec["steps"][last])), out)
            if isinstance(v, Raised) or COUNT["n"]:
                out.fail("F02:digits:network-needed", "after a complete load, load_mnist_usps used the network %d times: %s" % (COUNT["n"], v if isinstance(v, Raised) else "ok"))
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
