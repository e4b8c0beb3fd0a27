"""Data set loaders over a simulated network and a real (scratch) disk: F01-F04.

The server knows the published addresses and serves small archives with the
published layout.  Every fetch is one simulated process (or one thread) over
the same folder; faults hit the network, the disk or the process itself at any
line of the loaders, of tarfile / zipfile / shutil, or of sklearn's downloader.
"""
import builtins
import contextlib
import errno
import gzip
import hashlib
import io
import os
import re
import shutil
import tarfile
import tempfile
import threading
import time
import warnings
import zipfile
from pathlib import Path
from urllib.error import URLError

import numpy as np
from scipy.io import savemat
import sklearn.datasets._base as skbase

import skada.datasets as DS
from skada.datasets import _base as dbase
from skada.datasets import Office31CategoriesPreset, Office31Domain
from skada.datasets._amazon_review import AmazonReviewDomain
from skada.datasets._office_home import OfficeHomeDomain

from props.common import EXCS
from sim.engine import ENGINE, gen_sched, make_decider, pick_instant, raise_at, Recording
from sim.procs import KILL_STATUS, run_parties
from sim.runner import Out, Prop, forked, rng

CALTECH = ["back_pack", "bike", "calculator", "headphones", "keyboard", "laptop_computer", "monitor", "mouse", "mug",
           "projector"]
CATS = sorted(CALTECH + ["bookcase", "desk_lamp", "stapler"])
PUBLISHED = {
    "41786493": ("surf", "1bb83153343eb0d2c44f66ee63990639176855b2b894fae17ef82c7198123291"),
    "41786427": ("decaf", "ea13d8ced0fb629937f25f4a4670e0e75fc1955fb439f4ac412e129dd78a19ee"),
    "46003500": ("amazon", "a37a9702d44edcc5b6c6a8060f6f61b36f32d9127233ee6951eaf691c08ee4fb"),
    "46093947": ("home", "be46195bd8737e997ade333341a6c943139f974211bbbf726d760c990124f749"),
}
DOMS = {"surf": Office31Domain, "decaf": Office31Domain, "amazon": AmazonReviewDomain, "home": OfficeHomeDomain}
ONE = {"surf": "fetch_office31_surf", "decaf": "fetch_office31_decaf", "amazon": "fetch_amazon_review", "home": "fetch_office_home"}
HOME_NAMES = {"art": "Art", "clipart": "Clipart", "product": "Product", "realworld": "RealWorld"}


# ---- the published data -------------------------------------------------------
def _tar(files, bulk=b""):
    raw = io.BytesIO()
    with gzip.GzipFile(fileobj=raw, mode="wb", mtime=0) as gz, tarfile.open(fileobj=gz, mode="w") as t:
        seen = set()
        for name, data in files:
            parts = name.split("/")[:-1]
            for i in range(1, len(parts) + 1):
                d = "/".join(parts[:i])
                if d not in seen:
                    seen.add(d)
                    ti = tarfile.TarInfo(d)
                    ti.type = tarfile.DIRTYPE
                    ti.mode = 0o755
                    t.addfile(ti)
            ti = tarfile.TarInfo(name)
            ti.size = len(data)
            ti.mode = 0o644
            t.addfile(ti, io.BytesIO(data))
    return raw.getvalue()


def _zip(files):
    raw = io.BytesIO()
    with zipfile.ZipFile(raw, "w", zipfile.ZIP_DEFLATED) as z:
        for name, data in files:
            z.writestr(zipfile.ZipInfo(name), data)
    return raw.getvalue()


def _mat(**kw):
    b = io.BytesIO()
    savemat(b, kw)
    b = b.getvalue()
    return b"MATLAB 5.0 MAT-file".ljust(116) + b[116:]       # no creation time in the header


def build(kind, salt):
    """(archive bytes, truth): truth[domain] = list of (category or None, row, label)."""
    g = np.random.RandomState(100 + salt)
    truth, files = {}, []
    if kind in ("surf", "decaf"):
        for d in ("amazon", "dslr", "webcam"):
            rows = []
            for c in CATS:
                for k in range(1 + (len(c) + len(d)) % 2):
                    if kind == "surf":
                        row = g.randint(0, 255, 800).astype(np.uint8)
                        base = "domain_adaptation_features/%s/interest_points/%s/" % (d, c)
                        files.append((base + "histogram_%04d.SURF_SURF.amazon_800.SURF_SURF.mat" % k, _mat(histogram=row[None, :])))
                        if k == 0:
                            files.append((base + "histogram_%04d.SURF_SURF.amazon_600.SURF_SURF.mat" % k, _mat(histogram=row[None, :600])))
                    else:
                        row = np.round(g.randn(1000), 3)
                        files.append(("%s/decaf-fts/%s/frame_%04d.mat" % (d, c, k), _mat(fc8=row[:, None])))
                    rows.append((c, row))
            truth[d] = rows
        return _tar(files), truth
    if kind == "amazon":
        for d in ("books", "dvd", "elec", "kitchen"):
            X = np.round(g.rand(9, 400), 3)
            y = g.randint(0, 2, 9).astype(float)
            files.append(("amazon_review/%s_400.mat" % d, _mat(fts=X, labels=y[:, None])))
            truth[d] = (X.astype(np.float32), y.astype(np.float32))
        return _zip(files), truth
    lines = [",".join(["f%d" % i for i in range(2048)] + ["label", "domain"])]
    order = []
    for i in range(16):
        d = ("art", "clipart", "product", "realworld")[g.randint(4)]
        order.append((d, np.round(g.rand(2048), 2), str(g.randint(65))))
    for d in ("art", "clipart", "product", "realworld"):
        order.append((d, np.round(g.rand(2048), 2), str(g.randint(65))))
    for d, row, lab in order:
        lines.append(",".join(["%.2f" % v for v in row] + [lab, HOME_NAMES[d]]))
    for d in HOME_NAMES:
        truth[d] = (np.array([r for e, r, _ in order if e == d]).astype(np.float32), np.array([b for e, _, b in order if e == d]))
    return _zip([("OfficeHomeResnet50.csv", ("\n".join(lines) + "\n").encode())]), truth


# ---- the simulated network ----------------------------------------------------
class Server:
    def __init__(self):
        self.blob, self.stale, self.truth, self.sha = {}, {}, {}, {}
        for _, (kind, pub) in PUBLISHED.items():
            self.blob[kind], self.truth[kind] = build(kind, 0)
            self.stale[kind], _ = build(kind, 1)
            self.sha[hashlib.sha256(self.blob[kind]).hexdigest()] = pub
        self.local = threading.local()
        self.calls = 0
        self.kinds = {}

    def policy(self):
        return getattr(self.local, "pol", None) or {"kind": "ok"}

    def set_policy(self, pol):
        self.local.pol = dict(pol or {"kind": "ok"}, used=0)

    def hit(self, k):
        self.kinds[k] = self.kinds.get(k, 0) + 1

    def retrieve(self, url, filename=None, *a, **k):
        self.calls += 1
        pol = self.policy()
        pol["used"] = pol.get("used", 0) + 1
        ENGINE.point("net:connect")
        kind = pol["kind"]
        m = re.search(r"/files/(\d+)", str(getattr(url, "full_url", url)))
        if m is None or m.group(1) not in PUBLISHED:
            raise URLError("simulated 404 for %r" % (url,))
        what = PUBLISHED[m.group(1)][0]
        if kind == "forbidden":
            self.hit("net-touched")
            raise URLError("no network in this simulation")
        if kind == "down" or (kind == "flaky" and pol["used"] <= pol.get("n", 1)):
            self.hit(kind)
            raise URLError("simulated network down")
        if kind == "timeout" and pol["used"] <= pol.get("n", 1):
            self.hit(kind)
            raise TimeoutError("simulated timeout")
        data = self.blob[what]
        if kind == "stale":
            self.hit(kind)
            data = self.stale[what]
        if kind == "corrupt":
            self.hit(kind)
            i = int(pol.get("u", 0.5) * len(data))
            data = data[:i] + bytes([data[i] ^ 0x41]) + data[i + 1:]
        if kind == "html":
            self.hit(kind)
            data = b"<html>quota exceeded</html>"
        cut = len(data)
        if kind in ("trunc", "reset", "enospc"):
            self.hit(kind)
            cut = int(pol.get("u", 0.5) * len(data))
        if filename is None:
            fd, filename = tempfile.mkstemp()
            os.close(fd)
        with REAL_OPEN(filename, "wb") as f:
            step = max(1, cut // 4)
            for o in range(0, cut, step):
                f.write(data[o:min(cut, o + step)])
                f.flush()
                ENGINE.point("net:chunk")
            if kind == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "simulated reset")
            if kind == "enospc":
                raise OSError(errno.ENOSPC, "simulated full disk")
        ENGINE.point("net:done")
        return str(filename), {}

    def urlopen(self, url, *a, **k):
        fd, p = tempfile.mkstemp(dir=os.environ.get("VERIF_SCRATCH"))
        os.close(fd)
        try:
            self.retrieve(url, p)
            return io.BytesIO(open(p, "rb").read())
        finally:
            os.unlink(p)


# ---- the simulated disk: instants before and inside every write ------------------
REAL_OPEN = builtins.open


class SimFile:
    """A file being written: every write lands in pieces with an instant after each."""

    def __init__(self, f):
        self.__dict__["_f"] = f

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return iter(self._f)

    def write(self, data):
        n = len(data) if not isinstance(data, memoryview) else data.nbytes
        if n > 1 and not isinstance(data, str) and Disk.plan is not None:
            try:
                Disk.op("write")
            except OSError:
                self._f.write(bytes(data)[:n // 2])          # a short write
                raise
        if not ENGINE.active or n < 2:
            return self._f.write(data)
        if not isinstance(data, str):
            data = bytes(data)
        step = -(-n // 3)
        for o in range(0, n, step):
            self._f.write(data[o:o + step])
            self._f.flush()
            ENGINE.point("disk:write")
        return n

    def writelines(self, lines):
        for x in lines:
            self.write(x)


class Disk:
    """The n-th operation of one kind on the simulated disk fails, once."""
    plan, seen, fired = None, 0, None

    @classmethod
    def set(cls, plan):
        cls.plan, cls.seen, cls.fired = plan, 0, None

    @classmethod
    def op(cls, kind):
        p = cls.plan
        if p is None or p["op"] != kind:
            return
        cls.seen += 1
        if cls.seen == p["n"]:
            cls.plan, cls.fired = None, kind
            e = {"space": errno.ENOSPC, "io": errno.EIO, "access": errno.EACCES, "quota": errno.EDQUOT}[p["err"]]
            raise OSError(e, "simulated: " + os.strerror(e))


def on_disk(kind, real):
    def call(*a, **k):
        Disk.op(kind)
        return real(*a, **k)
    return call


def sim_open(file, mode="r", *a, **k):
    if Disk.plan is not None and isinstance(mode, str) and any(c in mode for c in "wax+") and not isinstance(file, int):
        Disk.op("open")
        if Disk.plan is not None and Disk.plan["op"] == "write":
            return SimFile(REAL_OPEN(file, mode, *a, **k))
    if ENGINE.active and isinstance(mode, str) and any(c in mode for c in "wax+") and not isinstance(file, int):
        ENGINE.point("disk:open")
        return SimFile(REAL_OPEN(file, mode, *a, **k))
    return REAL_OPEN(file, mode, *a, **k)


SRV = None
COLD = {}     # (loader kind, cold or warm) -> instants of one representative fetch, one list per distinct line
NCOLD = {}


class _NoSleep:
    def __getattr__(self, k):
        return getattr(time, k)

    @staticmethod
    def sleep(s):
        ENGINE.point("sleep")


def light():
    """The simulated network alone, for other properties' use of the loaders."""
    global SRV
    if SRV is None:
        SRV = Server()
        real_sha = skbase._sha256
        skbase._sha256 = lambda path: SRV.sha.get(real_sha(path), real_sha(path))
        skbase.urlretrieve = SRV.retrieve


def setup_fetch():
    global SRV
    if SRV is not None:
        return
    warnings.simplefilter("ignore")
    SRV = Server()
    real_sha = skbase._sha256
    skbase._sha256 = lambda path: (lambda h: SRV.sha.get(h, h))(real_sha(path))
    skbase.urlretrieve = SRV.retrieve
    skbase.time = _NoSleep()
    import urllib.request
    urllib.request.urlretrieve = SRV.retrieve
    urllib.request.urlopen = SRV.urlopen
    ENGINE.install()
    ENGINE.install_extra([tarfile.TarFile, tarfile.TarInfo, tarfile.copyfileobj, tarfile.ExFileObject, zipfile.ZipFile,
                          zipfile.ZipExtFile, shutil.move, shutil.copyfileobj, shutil.rmtree, skbase._fetch_remote, real_sha,
                          tempfile.mkdtemp, tempfile.NamedTemporaryFile, os.makedirs])
    builtins.open = io.open = tarfile.bltn_open = sim_open
    for name in ("rename", "replace", "mkdir", "rmdir", "remove", "unlink"):
        setattr(os, name, on_disk({"replace": "rename", "unlink": "remove"}.get(name, name), getattr(os, name)))
    for kind in ("surf", "decaf", "amazon", "home"):
        def probe(kind=kind):
            d = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
            try:
                SRV.set_policy(None)
                got = []
                for st in ({"dom": 0}, {"dom": 1}, {"all": True}):
                    _, _, n, locs = ENGINE.run_single(lambda: call(dict(st, loader=kind, home="str"), d), record=True)
                    # one list of occurrences per distinct line, thinned
                    occ = {}
                    for i, (code, where) in enumerate(locs):
                        occ.setdefault((id(code), where), []).append(i + 1)
                    got.append((n, [o if len(o) <= 24 else [o[(j * (len(o) - 1)) // 23] for j in range(24)] for o in occ.values()]))
                return got
            finally:
                shutil.rmtree(d, ignore_errors=True)
        for how, (n, lines) in zip(("cold", "warm", "all"), forked(probe)):
            NCOLD[kind, how], COLD[kind, how] = n, lines


def instant(kind, u, v, how="cold"):
    lines = COLD[kind, how]
    if not lines:
        return 1
    o = lines[min(len(lines) - 1, int(u * len(lines)))]
    return o[min(len(o) - 1, int(v * len(o)))]


# ---- one fetch ------------------------------------------------------------------
def folder(root):
    return os.path.join(root, "skada_datasets")


@contextlib.contextmanager
def env(root, mode):
    old = {k: os.environ.get(k) for k in ("HOME", "SKADA_DATA_FOLDER")}
    os.environ["HOME"] = root
    os.environ.pop("SKADA_DATA_FOLDER", None)
    if mode == "env":
        os.environ["SKADA_DATA_FOLDER"] = folder(root)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def call(st, root):
    kind = st["loader"]
    members = sorted(DOMS[kind], key=lambda m: m.value)
    kw = {}
    mode = st.get("home", "str")
    if mode == "str":
        kw["data_home"] = folder(root)
    elif mode == "path":
        kw["data_home"] = Path(folder(root))
    elif mode == "tilde":
        kw["data_home"] = os.path.join("~", "skada_datasets")
    if not st.get("dl", True):
        kw["download_if_missing"] = False
    if st.get("shuffle") is not None:
        kw["shuffle"] = True
        kw["random_state"] = st["shuffle"]
    if kind in ("surf", "decaf") and st.get("cats"):
        kw["categories"] = {"all": Office31CategoriesPreset.ALL, "caltech": Office31CategoriesPreset.CALTECH256,
                            "list": ["mug", "stapler", "bike"]}[st["cats"]]
    if st.get("all"):
        return getattr(DS, ONE[kind] + "_all")(**kw)
    m = members[st.get("dom", 0) % len(members)]
    form = st.get("form", "str")
    dom = m if form == "enum" else (m.value.upper() if form == "upper" else m.value)
    if st.get("xy"):
        kw["return_X_y"] = True
    return getattr(DS, ONE[kind])(dom, **kw)


def expected(st, dname):
    kind = st["loader"]
    T = SRV.truth[kind][dname]
    if kind in ("surf", "decaf"):
        cats = CATS
        if st.get("cats") == "caltech":
            cats = sorted(CALTECH)
        elif st.get("cats") == "list":
            cats = ["bike", "mug", "stapler"]
        rows = [(cats.index(c), r) for c, r in T if c in cats]
        return np.array([r for _, r in rows]), np.array([c for c, _ in rows]), cats
    return T[0], T[1], None


def _cmp(X, y, EX, Ey, shuffled, where):
    X, y = np.asarray(X), np.asarray(y)
    if X.shape != EX.shape or y.shape != Ey.shape:
        return "%s: shapes %s %s instead of %s %s" % (where, X.shape, y.shape, EX.shape, Ey.shape)
    if X.dtype != EX.dtype or y.dtype.kind != Ey.dtype.kind:
        return "%s: dtypes %s %s instead of %s %s" % (where, X.dtype, y.dtype, EX.dtype, Ey.dtype)
    if shuffled:
        a = sorted((X[i].tobytes(), str(y[i])) for i in range(len(X)))
        b = sorted((np.ascontiguousarray(EX[i]).tobytes(), str(Ey[i])) for i in range(len(EX)))
        return None if a == b else "%s: shuffled rows are not the published rows" % where
    if X.tobytes() != np.ascontiguousarray(EX).tobytes():
        return "%s: samples differ from the published ones" % where
    if [str(v) for v in y] != [str(v) for v in Ey]:
        return "%s: labels differ from the published ones" % where
    return None


def judge(st, val):
    """None if val is exactly what the loader should return for step st."""
    kind = st["loader"]
    names = [m.value for m in DOMS[kind]]
    sh = st.get("shuffle") is not None
    if st.get("all"):
        if list(val.domain_names_) != names or [val.domain_names_[n] for n in names] != list(range(1, len(names) + 1)):
            return "domains %r" % (val.domain_names_,)
        if len(val.domains_) != len(names):
            return "%d domains" % len(val.domains_)
        for n in names:
            d = val.get_domain(n)
            EX, Ey, _ = expected(st, n)
            e = _cmp(d[0], d[1], EX, Ey, sh, n)
            if e:
                return e
        return None
    n = sorted(names)[st.get("dom", 0) % len(names)]
    EX, Ey, cats = expected(st, n)
    if st.get("xy"):
        if not isinstance(val, tuple) or len(val) != 2:
            return "returned %s instead of a pair" % type(val).__name__
        X, y = val
    elif kind in ("surf", "decaf"):
        X, y = val["X"], val["y"]
        if list(val["target_names"]) != cats:
            return "target names %r" % (val["target_names"],)
    else:
        if list(val.domain_names_) != [n]:
            return "domains %r" % (val.domain_names_,)
        X, y = val.get_domain(n)[:2]
    return _cmp(X, y, EX, Ey, sh, n)


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = hashlib.sha1(open(p, "rb").read()).hexdigest()
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + "/"] = ""
    return out


def summarise(st, val):
    bad = judge(st, val)
    return ("bad", bad) if bad else ("truth", None)


def attempt(st, root):
    """One fetch in the current process: (verdict, detail, network calls)."""
    SRV.set_policy(st.get("net"))
    c0 = SRV.calls
    SRV.kinds = {}
    with env(root, st.get("home", "str")):
        try:
            Disk.set(st.get("disk"))
            try:
                val = call(st, root)
            finally:
                if Disk.fired:
                    SRV.hit("disk-" + Disk.fired)
                Disk.set(None)
        except BaseException as e:                       # noqa: BLE001
            return ("raised", "%s: %s" % (type(e).__name__, str(e)[:200]), SRV.calls - c0, isinstance(e, OSError), dict(SRV.kinds))
    v, d = summarise(st, val)
    if st.get("scribble"):
        scribble(val)
    return (v, d, SRV.calls - c0, False, dict(SRV.kinds))


def scribble(val):
    """The caller works in place on what it was given: its own arrays, by now."""
    pile = [val]
    while pile:
        x = pile.pop()
        if isinstance(x, np.ndarray):
            if x.flags.writeable and x.dtype.kind in "fiu":
                x[...] = 7
            elif x.flags.writeable:
                x[...] = x.flat[0]
        elif isinstance(x, dict):
            pile.extend(x.values())
        elif isinstance(x, (tuple, list)):
            pile.extend(x)
            if isinstance(x, list):
                x.clear()
        elif hasattr(x, "domains_"):
            pile.append(x.domains_)
            x.domain_names_.clear()


def fault_hook(f, kind):
    at = instant(kind, f["u"], f["v"], f.get("how", "cold"))
    if f["kind"] == "kill":
        def act():
            os._exit(KILL_STATUS)
    else:
        def act():
            raise EXCS[f["kind"]]()
    return at, act


def run_step(st, root, out):
    """The step as one simulated process; it may die."""
    f = st.get("fault")
    if f is None and st.get("inproc"):
        r = attempt(st, root)
        out.hit("fetches")
        out.hit("fetches in the process of the earlier ones")
        return r, False
    if st.get("inproc") and f["kind"] != "kill":
        at = instant(st["loader"], f["u"], f["v"], f.get("how", "cold"))
        hook = raise_at(at, EXCS[f["kind"]])
        r, exc, n, _ = ENGINE.run_single(lambda: attempt(st, root), hook=hook)
        out.hit("fetches")
        out.hit("fetches in the process of the earlier ones")
        out.instants += n
        if hook.state["fired"]:
            out.hit("fault:" + f["kind"])
        if exc is not None:
            return ("raised", "%s: %s" % (type(exc).__name__, exc), 0, False, {}), True
        return r, hook.state["fired"]
    fault = fault_hook(f, st["loader"]) if f else None
    parties, _, ok = run_parties([(lambda: attempt(st, root), fault)], iter(()))
    p = parties[0]
    out.hit("fetches")
    out.instants += p.steps
    if p.fired and f:
        out.hit("fault:" + f["kind"])
    if p.state == "dead":
        if not (f and f["kind"] == "kill" and p.fired):
            raise RuntimeError("simulated process died (status %s)" % p.status)
        return ("killed", None, 0, False, {}), True
    if not ok:
        return ("stuck", None, 0, False, {}), True
    if p.value[0] == "exc":
        return ("raised", p.value[1] + ": " + p.value[2], 0, False, {}), True
    return p.value[1], p.fired


# ---- histories --------------------------------------------------------------------
def gen_step(r, loaders, dl=1.0):
    k = r.choice(loaders)
    st = {"loader": k, "dom": r.randrange(4), "form": r.choice(["str", "enum", "upper"]), "home": r.choice(["str", "path", "env", "default", "tilde"])}
    if r.random() < 0.3:
        st["all"] = True
    if r.random() < 0.4:
        st["xy"] = True
    if r.random() < 0.25:
        st["shuffle"] = r.randrange(5)
    if k in ("surf", "decaf") and r.random() < 0.5:
        st["cats"] = r.choice(["all", "caltech", "list"])
    if r.random() < 0.5:
        st["scribble"] = True
    if r.random() > dl:
        st["dl"] = False
    return st


def gen_net(r):
    k = r.choice(["down", "flaky", "timeout", "reset", "trunc", "corrupt", "stale", "html", "enospc"])
    return {"kind": k, "n": r.choice([1, 2, 5]), "u": round(r.random(), 4)}


def gen_crash(r, kinds=("kill", "kill", "interrupt", "enospc", "nomem")):
    return {"kind": r.choice(kinds), "u": round(r.random(), 6), "v": round(r.random(), 6), "how": r.choice(["cold", "cold", "warm", "all"])}


def gen_disk(r):
    return {"op": r.choice(["open", "write", "write", "rename", "rename", "mkdir", "rmdir", "remove"]), "n": r.choice([1, 1, 2, 3, 4, 5, 8, 13, 21]),
            "err": r.choice(["space", "io", "access", "quota"])}


def gen_history(r, n=None):
    loaders = r.sample(["surf", "decaf", "amazon", "home"], r.choice([1, 1, 1, 2]))
    steps = []
    for _ in range(n or r.choice([1, 2, 2, 3, 4])):
        st = gen_step(r, loaders, dl=0.85)
        x = r.random()
        if x < 0.5:
            st["fault"] = gen_crash(r)
        elif x < 0.72:
            st["net"] = gen_net(r)
            if r.random() < 0.2:
                st["fault"] = gen_crash(r)
        else:
            st["disk"] = gen_disk(r)
        if r.random() < 0.6 and (st.get("fault") or {}).get("kind") != "kill":
            st["inproc"] = True
        steps.append(st)
    return loaders, steps


def root_dir():
    return tempfile.mkdtemp(prefix="home-", dir=os.environ.get("VERIF_SCRATCH"))


class FetchProp(Prop):
    rule = ("a run is non-trivial if at least one injected fault (network, disk, interrupt, kill) or scheduling decision took "
            "effect before the checked fetch; distinct by the log of faults, their instants and outcomes")
    real = ["skada.datasets loaders (_office, _amazon_review, _office_home, _base)", "sklearn.datasets._base._fetch_remote and "
            "load_files", "tarfile, zipfile, shutil, tempfile", "scipy.io.loadmat, csv parsing", "the file system (scratch folder)"]
    stubs = ["the network: urlretrieve/urlopen answer from an in-memory server that knows the published addresses and serves small "
             "archives with the published layout; their sha256 is reported as the published one", "time.sleep between retries"]
    assumptions = ["a killed process loses its memory, not what it wrote (no power loss)", "files of an installed data set do not rot",
                   "the archives are miniatures with the published file layout"]
    quick = {"seconds": 26, "runs": 200000}
    thorough = {"seconds": 600, "runs": 10000000}
    batch = 1

    def setup(self):
        setup_fetch()

    def shrink(self, spec):
        for key in ("steps", "tasks"):
            L = spec.get(key)
            if L and len(L) > (1 if key == "steps" else 2):
                for i in range(len(L)):
                    yield dict(spec, **{key: L[:i] + L[i + 1:]})
        for key in ("steps", "tasks"):
            for i, st in enumerate(spec.get(key) or []):
                for f in ("shuffle", "cats", "all", "xy", "net", "disk", "fault", "form", "home", "inproc", "scribble"):
                    if f in st:
                        s2 = {k: v for k, v in st.items() if k != f}
                        yield dict(spec, **{key: spec[key][:i] + [s2] + spec[key][i + 1:]})
        if spec.get("sched", {}).get("kind") == "trace":
            b = spec["sched"]["bursts"]
            if len(b) > 1:
                for part in (b[:len(b) // 2], b[len(b) // 2:]):
                    yield dict(spec, sched={"kind": "trace", "bursts": part})
                if len(b) < 14:
                    for i in range(len(b)):
                        yield dict(spec, sched={"kind": "trace", "bursts": b[:i] + b[i + 1:]})

    def history(self, spec, root, out, check=True):
        for i, st in enumerate(spec["steps"]):
            r, fired = run_step(st, root, out)
            v, detail = r[0], r[1]
            out.note(i, st["loader"], "all" if st.get("all") else st["dom"], "offline" if not st.get("dl", True) else "",
                     "net=%s" % (st.get("net") or {}).get("kind"), "fault=%s" % ((st.get("fault") or {}).get("kind"), ) if fired else "",
                     v, (detail or "").split(root)[0])
            for k in r[4]:
                if k != "net-touched":
                    out.hit("fault:" + (k if k.startswith("disk-") else "net-" + k))
                    out.nontrivial = True
            if fired:
                out.nontrivial = True
            if check and v == "bad":
                out.fail("%s:damaged" % self.pid, "fetch %d (%s) returned data that is not the published data: %s" % (i, st, detail))
                return
            if v == "stuck":
                out.fail("%s:no-progress" % self.pid, "fetch %d (%s) never finished" % (i, st))
                return

    def heals(self, root, loaders, r, out, also_all=True):
        """A fault-free fetch succeeds and later ones need no network."""
        for k in loaders:
            st = gen_step(r, [k])
            st.pop("shuffle", None)
            v = attempt(st, root)
            out.hit("fault-free fetches after faults")
            if v[0] != "truth":
                out.fail("%s:not-healed" % self.pid, "after the faults stopped, a fault-free fetch %s gave %s: %s" % (st, v[0], v[1]))
                return
            for home in ("str", "env"):
                st2 = dict(gen_step(r, [k]), home=home, net={"kind": "forbidden"})
                v = attempt(st2, root)
                if v[2] or v[0] != "truth":
                    out.fail("%s:network-needed" % self.pid, "after a complete fetch, %s used the network %d times and gave %s: %s" % (st2, v[2], v[0], v[1]))
                    return


def digits():
    from props import digits as d
    return d


class F01(FetchProp):
    pid = "F01"

    def gen(self, r, tier):
        if r.random() < 0.06:
            return digits().gen(r)
        _, steps = gen_history(r, None if tier == "quick" else r.choice([2, 3, 4, 6]))
        # what counts is a fetch that returns after something went wrong
        last = gen_step(r, [steps[-1]["loader"]])
        if r.random() < 0.3:
            last["net"] = gen_net(r)
        if r.random() < 0.6:
            last["inproc"] = True
        return {"steps": steps + [last]}

    def setup(self):
        setup_fetch()
        digits().setup()
        ENGINE.install()

    def run(self, spec):
        if spec.get("digits"):
            out = Out()
            digits().run(spec, out, self.pid)
            return out
        out, root = Out(), root_dir()
        try:
            self.history(spec, root, out)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        return out


class F02(FetchProp):
    pid = "F02"

    def gen(self, r, tier):
        if r.random() < 0.06:
            return digits().gen(r)
        loaders, steps = gen_history(r)
        return {"steps": steps, "seed": r.randrange(1 << 30)}

    def setup(self):
        setup_fetch()
        digits().setup()
        ENGINE.install()

    def run(self, spec):
        if spec.get("digits"):
            out = Out()
            digits().run(spec, out, self.pid)
            return out
        out, root = Out(), root_dir()
        try:
            self.history(spec, root, out, check=False)
            if out.viol is None:
                self.heals(root, sorted({s["loader"] for s in spec["steps"]}), rng("heal", spec["seed"]), out)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        return out


class F04(FetchProp):
    pid = "F04"

    def gen(self, r, tier):
        loaders, steps = gen_history(r, r.choice([0, 1, 1, 2, 3]) or None)
        if r.random() < 0.12:
            steps = []
        off = dict(gen_step(r, loaders), dl=False, net={"kind": "ok"})
        if r.random() < 0.35:
            off["fault"] = gen_crash(r)
        if r.random() < 0.5 and (off.get("fault") or {}).get("kind") != "kill":
            off["inproc"] = True
        return {"steps": steps, "off": off, "loaders": loaders, "seed": r.randrange(1 << 30)}

    def run(self, spec):
        out, root = Out(), root_dir()
        try:
            self.history(spec, root, out, check=False)
            if out.viol:
                return out
            off = spec["off"]
            complete = False
            # is the data there?  ask a copy of the folder, with the network on but counted
            probe = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
            try:
                if os.path.isdir(folder(root)):
                    shutil.copytree(folder(root), folder(probe))
                v = forked(lambda: attempt(dict(off, dl=True, fault=None), probe))
                complete = v[0] == "truth" and v[2] == 0
            finally:
                shutil.rmtree(probe, ignore_errors=True)
            r, fired = run_step(off, root, out)
            out.nontrivial = out.nontrivial or fired or not spec["steps"] or complete
            out.note("offline", off["loader"], "complete" if complete else "absent", r[0], (r[1] or "").split(root)[0])
            out.hit("offline fetches, data " + ("present" if complete else "absent"))
            if r[2]:
                out.fail("F04:network", "with download_if_missing=False the loader contacted the network %d times (%s)" % (r[2], off))
            elif r[0] == "bad":
                out.fail("F04:damaged", "offline fetch returned data that is not the published data: %s" % r[1])
            elif r[0] == "truth" and not complete:
                out.fail("F04:from-nowhere", "the offline fetch %s returned data that is not in the folder" % (off,))
            elif complete and r[0] != "truth" and not fired:
                out.fail("F04:present-not-returned", "the data set is complete on disk but the offline fetch %s gave %s: %s" % (off, r[0], r[1]))
            elif not complete and r[0] == "raised" and not fired and not r[3]:
                out.fail("F04:error-kind", "the offline fetch of absent data raised %s instead of OSError" % r[1])
            if out.viol is None:
                self.heals(root, [off["loader"]], rng("heal", spec["seed"]), out)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        return out


class F03(FetchProp):
    pid = "F03"
    rule = ("a run is non-trivial if at least two fetches overlapped (one was stopped inside the loader while another ran); distinct by "
            "the schedule taken, faults and outcomes")
    batch = 1

    def gen(self, r, tier):
        kinds = ["surf", "decaf", "amazon", "home"]
        k = r.choice(kinds)
        pool = [k] if r.random() < 0.8 else [k, r.choice(kinds)]
        tasks = []
        for _ in range(r.choice([2, 2, 2, 3])):
            st = gen_step(r, pool, dl=0.85)
            if r.random() < 0.15:
                st["net"] = gen_net(r)
            tasks.append(st)
        tasks[0]["loader"] = k
        mode = "threads" if r.random() < 0.4 else "procs"
        if r.random() < 0.4:
            tasks[r.randrange(len(tasks))]["fault"] = gen_crash(r, ("kill", "kill", "interrupt", "enospc") if mode == "procs" else
                                                                ("interrupt", "enospc", "nomem"))
        spec = {"tasks": tasks, "mode": mode, "seed": r.randrange(1 << 30)}
        if r.random() < 0.2:
            _, spec["steps"] = gen_history(r, 1)
            spec["steps"][0]["loader"] = k
        if mode == "threads":
            if any(t["home"] == "env" for t in tasks):
                for t in tasks:
                    t["home"] = "env" if t["home"] in ("env", "default") else t["home"]
            spec["sched"] = gen_sched(r)
        else:
            x = r.random()
            spec["sched"] = {"kind": "pivot" if x < 0.6 else "random", "seed": r.randrange(1 << 30),
                             "mean": r.choice([2, 10, 60, 300, 1500]), "m": r.choice([1, 1, 2, 3])}
        return spec

    def plan(self, spec):
        s = spec["sched"]
        n = len(spec["tasks"])
        if s["kind"] == "trace":
            yield from (tuple(x) for x in s["bursts"])
            return
        g = rng("plan", s["seed"])
        if s["kind"] == "pivot":
            pos = [0] * n
            order = list(range(n))
            g.shuffle(order)
            for j in range(s["m"]):
                for i in order:
                    if j == s["m"] - 1 and i == order[-1]:
                        break
                    k = instant(spec["tasks"][i]["loader"], g.random(), g.random())
                    if k > pos[i]:
                        yield i, k - pos[i]
                        pos[i] = k
            tail = order[::-1] if g.random() < 0.7 else order
            for i in tail:
                yield i, 1 << 40
        else:
            for _ in range(400):
                yield g.randrange(n), 1 + int(g.expovariate(1.0 / s["mean"]))

    def run(self, spec):
        out, root = Out(), root_dir()
        try:
            if spec.get("steps"):
                self.history(spec, root, out, check=False)
            if spec["mode"] == "procs":
                self.procs(spec, root, out)
            else:
                self.threads(spec, root, out)
            if out.viol is None:
                self.heals(root, sorted({t["loader"] for t in spec["tasks"]}), rng("heal", spec["seed"]), out)
        finally:
            shutil.rmtree(root, ignore_errors=True)
        return out

    def verdict(self, i, st, v, detail, fired, nets, oserr, out):
        out.note("task", i, st["loader"], "offline" if not st.get("dl", True) else "", v, (detail or "")[:60])
        if v == "bad":
            out.fail("F03:damaged", "concurrent fetch %d (%s) returned data that is not the published data: %s" % (i, st, detail))
        elif v == "raised" and not fired and not nets:
            if not st.get("dl", True) and oserr:
                return
            out.fail("F03:disturbed", "concurrent fetch %d (%s) had no fault of its own but raised %s" % (i, st, detail))

    def procs(self, spec, root, out):
        specs = []
        for st in spec["tasks"]:
            f = st.get("fault")
            specs.append(((lambda st=st: attempt(st, root)), fault_hook(f, st["loader"]) if f else None))
        parties, trace, ok = run_parties(specs, self.plan(spec), out)
        out.note("bursts", [[i, b if b < 1 << 39 else -1] for i, b in trace][:40])
        out.hit("process switches", len(trace))
        out.hit("concurrent process runs")
        if len(trace) > len(parties):
            out.nontrivial = True
        if not ok:
            out.fail("F03:no-progress", "concurrent fetches wait for each other for ever")
            return
        for i, (st, p) in enumerate(zip(spec["tasks"], parties)):
            out.instants += p.steps
            f = st.get("fault")
            if f and p.fired:
                out.hit("fault:" + f["kind"])
            if p.state == "dead":
                if not (f and f["kind"] == "kill" and p.fired):
                    raise RuntimeError("simulated process died (status %s)" % p.status)
                out.note("task", i, "killed")
                continue
            if p.value[0] == "exc":
                v = ("raised", p.value[1] + ": " + p.value[2], 0, False, {})
            else:
                v = p.value[1]
            for k in v[4]:
                out.hit("fault:net-" + k)
            self.verdict(i, st, v[0], v[1], p.fired, v[4], v[3], out)
        if out.viol and spec["sched"]["kind"] != "trace":
            out.viol["trace_spec"] = dict(spec, sched={"kind": "trace", "bursts": trace})

    def threads(self, spec, root, out):
        tasks = spec["tasks"]
        fires = {}
        res = {}

        def body(i, st):
            def go():
                SRV.set_policy(st.get("net"))
                val = call(st, root)
                v = summarise(st, val)
                if st.get("scribble"):
                    scribble(val)
                return v
            return go

        faults = {}
        for i, st in enumerate(tasks):
            if st.get("fault"):
                faults[i] = instant(st["loader"], st["fault"]["u"], st["fault"]["v"], st["fault"].get("how", "cold")), st["fault"]["kind"]

        def hook(eng, code, where):
            i = eng.cur.tid
            f = faults.get(i)
            if f and i not in fires and eng.cur.steps >= f[0]:
                fires[i] = True
                raise EXCS[f[1]]()
        est = sum(NCOLD[t["loader"], "cold"] for t in tasks)
        if spec["sched"]["kind"] == "trace":
            dec = Recording(make_decider(dict(spec["sched"], kind="trace"), len(tasks), rng, est))
        else:
            dec = Recording(make_decider(spec["sched"], len(tasks), rng, est))
        homes = {t.get("home") for t in tasks}
        SRV.kinds = {}
        with env(root, "env" if "env" in homes else "default"):
            done = ENGINE.run_tasks([body(i, t) for i, t in enumerate(tasks)], dec, hook=hook)
        out.instants += ENGINE.n
        sw = ENGINE.switches
        out.note("switches", len(sw), sw[:30])
        out.hit("thread switches", len(sw))
        out.hit("concurrent thread runs")
        if any(n >= 0 for n, _ in sw):
            out.nontrivial = True
        for i, t in enumerate(done):
            st = tasks[i]
            if i in fires:
                out.hit("fault:" + st["fault"]["kind"])
            if t.exc is not None:
                v = ("raised", "%s: %s" % (type(t.exc).__name__, str(t.exc)[:200]))
            else:
                v = t.result
            nets = st.get("net") if st.get("net") else None
            self.verdict(i, st, v[0], v[1], i in fires, nets, isinstance(t.exc, OSError), out)
        if out.viol and spec["sched"]["kind"] != "trace":
            out.viol["trace_spec"] = dict(spec, sched={"kind": "trace", "first": dec.first_tid, "switches": sw})
