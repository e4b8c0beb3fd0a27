"""D01: DomainAwareDataset against a plain list of domains, over histories with
failing calls, interrupts, copies, process restarts and concurrent readers."""
import copy
import pickle
import warnings

import numpy as np
import torch

from skada.datasets import DomainAwareDataset
from skada.datasets import make_shifted_datasets

from props.common import EXCS
from sim import world as W
from sim.engine import ENGINE, Recording, gen_sched, make_decider, raise_at
from sim.runner import Out, Prop, forked, rng

KINDS = ["int", "int", "int32", "float", "float32", "str", "int8", "tensor", "mixed"]
NAMES = ["a", "b", "s", "t", "_1", "_2", "_3", "Webcam", "very long domain name number one", ""]


def make_xy(g, kind, unl):
    n = 1 + g.randrange(4)
    v = [[round(g.random(), 3), g.randrange(100)] for _ in range(n)]
    X = np.array(v, dtype=float)
    if kind == "mixed":
        kind = g.choice(["int", "float"])
    if kind in ("int", "int32", "int8"):
        y = np.array([g.randrange(4) for _ in range(n)], dtype={"int": np.int64, "int32": np.int32, "int8": np.int8}[kind])
    elif kind in ("float", "float32"):
        y = np.array([round(g.random() * 9, 2) for _ in range(n)], dtype={"float": np.float64, "float32": np.float32}[kind])
    elif kind == "str":
        y = np.array([g.choice(["cat", "dog", "x"]) for _ in range(n)])
    else:
        X = torch.tensor(v, dtype=torch.float32)
        y = torch.tensor([g.randrange(4) for _ in range(n)])
    return X, (None if unl else y)


def npy(x):
    return x.detach().cpu().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)


class Model:
    def __init__(self, kind):
        self.kind = kind
        self.doms = []            # (name, X, y or None), private copies
        self.odd = set()          # names of domains whose arrays do not fit together

    def names(self):
        return [n for n, _, _ in self.doms]

    def copy(self):
        m = Model(self.kind)
        m.doms = list(self.doms)
        m.odd = set(self.odd)
        return m

    def add(self, name, X, y):
        self.doms.append((name, npy(X).copy(), None if y is None else npy(y).copy()))

    def find(self, name):
        for i, (n, X, y) in enumerate(self.doms):
            if n == name:
                return i + 1, X, y
        raise KeyError(name)

    def pack(self, src, tgt, masked, mask=None):
        """rows (x tuple, acceptable labels, domain) and names -> label"""
        rows, labels = [], {}
        kinds = set()
        for n in list(src) + list(tgt):
            y = self.find(n)[2]
            if y is not None:
                kinds.add("f" if y.dtype.kind == "f" else "c")
        for side, names in ((1, src), (-1, tgt)):
            for n in names:
                i, X, y = self.find(n)
                labels[n] = side * i
                for k in range(len(X)):
                    if side < 0 and masked:
                        if mask is not None:
                            ok = (mask,)
                        elif kinds == {"f"}:
                            ok = (float("nan"),)
                        elif kinds <= {"c"}:
                            ok = (-1,)
                        else:
                            ok = (-1, float("nan"))
                    elif y is None:
                        ok = (-1,)
                    else:
                        ok = (y[k],)
                    rows.append((X[k], ok, side * i))
        if not rows:
            raise ValueError("nothing to pack")
        return rows, labels


def label_eq(v, w):
    if isinstance(v, (str, np.str_)) or isinstance(w, (str, np.str_)):
        return str(v) == str(w)
    v, w = float(v), float(w)
    return v == w or (v != v and w != w)


def check_pack(val, model_out, rtype, kind):
    rows, labels = model_out
    if rtype == "Bunch":
        if dict(val["domain_names"]) != labels:
            return "domain_names %r instead of %r" % (dict(val["domain_names"]), labels)
        X, y, sd = val["X"], val["y"], val["sample_domain"]
    elif rtype == "DeepDADataset":
        X, y, sd = val.as_arrays()
    else:
        X, y, sd = val
    want_t = rtype in ("tensor", "DeepDADataset") or (rtype == "auto" and kind == "tensor")
    for nm, a in (("X", X), ("y", y), ("sample_domain", sd)):
        if isinstance(a, torch.Tensor) != want_t:
            return "%s is a %s" % (nm, type(a).__name__)
    X, y, sd = npy(X), npy(y), npy(sd)
    if len(X) != len(rows) or len(y) != len(rows) or len(sd) != len(rows):
        return "lengths %d %d %d instead of %d" % (len(X), len(y), len(sd), len(rows))
    for k, (x, ok, d) in enumerate(rows):
        if int(sd[k]) != d:
            return "row %d has domain %s instead of %d" % (k, sd[k], d)
        if not np.allclose(X[k], x, atol=1e-6, rtol=1e-6):
            return "row %d has samples %s instead of %s" % (k, X[k], x)
        if not any(label_eq(y[k], o) or (y.dtype.kind == "f" and not isinstance(o, str) and abs(float(y[k]) - float(o)) < 1e-6) for o in ok):
            return "row %d (domain %d) has label %r instead of %r" % (k, d, y[k], ok)
    return None


def gen_ops(r, n, kind):
    ops = []
    for _ in range(n):
        x = r.random()
        c = r.randrange(4)
        if x < 0.3:
            ops.append({"op": "add", "c": c, "seed": r.randrange(1 << 30), "unl": r.random() < 0.25,
                        "name": r.choice(NAMES) if r.random() < 0.7 else None})
        elif x < 0.34:
            ops.append({"op": "odd", "c": c, "seed": r.randrange(1 << 30), "how": r.choice(["list", "name", "mismatch", "mismatch", "nosamples"]),
                        "name": r.choice(NAMES)})
        elif x < 0.43:
            ops.append({"op": "merge", "c": c, "d": r.randrange(4), "map": r.choice([None, None, "fresh", "fresh", "clash", "part", "same"]),
                        "seed": r.randrange(1 << 30)})
        elif x < 0.48:
            ops.append({"op": "new", "how": r.choice(["empty", "list", "dict", "list1", "dup"]), "seed": r.randrange(1 << 30)})
        elif x < 0.54:
            ops.append({"op": "copy", "c": c, "how": r.choice(["deepcopy", "pickle", "copy"])})
        elif x < 0.6:
            ops.append({"op": "get", "c": c, "seed": r.randrange(1 << 30)})
        elif x < 0.66:
            ops.append({"op": "repr", "c": c})
        elif x < 0.74:
            ops.append({"op": "select", "c": c, "seed": r.randrange(1 << 30)})
        elif x < 0.78:
            ops.append({"op": "scribble"})
        else:
            ops.append(gen_pack(r, c))
    return ops


def gen_pack(r, c):
    o = {"op": "pack", "c": c, "seed": r.randrange(1 << 30), "masked": r.random() < 0.6,
         "rtype": r.choice(["auto", "array", "Bunch", "tensor", "DeepDADataset"]),
         "api": r.choice(["pack"] * 6 + ["lodo", "train", "test", "deprecated"])}
    if r.random() < 0.2:
        o["mask"] = r.choice([-10, -1, 77])
    if r.random() < 0.3:
        o["fault"] = {"kind": r.choice(["interrupt", "nomem"]), "at": 1 + r.randrange(60)}
    return o


class D01(Prop):
    pid = "D01"
    module = "dsets"
    rule = ("a run is non-trivial if it queried containers after at least one mutation, failed call, interrupt, copy or while other "
            "threads read; distinct by the log of operations and outcomes")
    real = ["skada.datasets.DomainAwareDataset: add_domain, merge, get_domain, select_domain, pack and its variants, repr", "DeepDADataset as a "
            "packing result", "copy, deepcopy, pickle across processes"]
    stubs = ["thread scheduling", "instants of interrupts and allocation failures"]
    assumptions = ["caller does not edit arrays after handing them over", "mutations are not concurrent with other operations on the same container",
                   "an interrupt is injected into queries, not into the two-attribute update of add_domain"]
    quick = {"seconds": 22, "runs": 400000}
    thorough = {"seconds": 400, "runs": 10000000}
    batch = 10

    def setup(self):
        warnings.simplefilter("ignore")
        W.setup_process()
        ENGINE.install()

    def gen(self, r, tier):
        kind = r.choice(KINDS)
        n = r.choice([4, 8, 14]) if tier == "quick" else r.choice([8, 14, 25])
        spec = {"kind": kind, "ops": gen_ops(r, n, kind)}
        if r.random() < 0.35:
            spec["conc"] = {"c": r.randrange(4), "sched": gen_sched(r),
                            "ops": [r.choice([gen_pack(r, 0), gen_pack(r, 0), {"op": "repr", "c": 0}, {"op": "select", "c": 0, "seed": r.randrange(99)},
                                              {"op": "get", "c": 0, "seed": r.randrange(99)}]) for _ in range(r.choice([2, 3]))]}
        return spec

    def shrink(self, spec):
        if spec.get("conc"):
            yield {k: v for k, v in spec.items() if k != "conc"}
        ops = spec["ops"]
        for i in range(len(ops)):
            yield dict(spec, ops=ops[:i] + ops[i + 1:])
        for i, o in enumerate(ops):
            for f in ("fault", "mask"):
                if f in o:
                    yield dict(spec, ops=ops[:i] + [{k: v for k, v in o.items() if k != f}] + ops[i + 1:])

    # -- one query: (fn on the real container, checker of its value) ----------
    def query(self, o, c, m, kind):
        g = rng("q", o.get("seed", 0))
        if o["op"] == "repr":
            def chk(v):
                t = sum(len(X) for _, X, _ in m.doms)
                if m.odd:
                    return None
                if ("Number of domains: %d" % len(m.doms)) not in v or ("Total size: %d" % t) not in v:
                    return "repr %r for %d domains of %d samples" % (v, len(m.doms), t)
            return ((lambda: len(c.domains_)) if m.odd else (lambda: repr(c) + str(c))), chk, False
        if o["op"] == "get":
            name = g.choice(m.names() + ["no such domain"])
            try:
                _, X, y = m.find(name)
            except KeyError:
                return (lambda: c.get_domain(name)), None, True

            def chk(v):
                if len(v) != (1 if y is None else 2):
                    return "get_domain(%r) returned %d arrays" % (name, len(v))
                if not np.array_equal(npy(v[0]), X) or (y is not None and not np.array_equal(npy(v[1]), y)):
                    return "get_domain(%r) is not what was added" % name
            return (lambda: c.get_domain(name)), chk, False
        if o["op"] == "select":
            k = 1 + g.randrange(12)
            ids = list(range(1, len(m.doms) + 1)) or [1]
            sd = np.array([g.choice(ids) * g.choice([1, -1]) for _ in range(k)])
            pool = m.names() + (["no such domain"] if g.random() < 0.15 else [])
            if not pool:
                return (lambda: c.select_domain(sd, "zzz")), None, True
            sel = [g.choice(pool) for _ in range(1 + g.randrange(3))]
            arg = sel[0] if g.random() < 0.4 else sel
            sel = [arg] if isinstance(arg, str) else sel
            if any(s not in m.names() for s in sel):
                return (lambda: c.select_domain(sd, arg)), None, True
            want = np.isin(np.abs(sd), [m.find(s)[0] for s in sel])

            def chk(v):
                if not np.array_equal(np.asarray(v, dtype=bool), want):
                    return "select_domain(%s, %r) gave %s" % (sd.tolist(), arg, np.asarray(v).tolist())
            return (lambda: c.select_domain(sd, arg)), chk, False
        # pack
        pool = [n for n in m.names() if n not in m.odd] + (["no such domain"] if g.random() < 0.06 else [])
        src = [n for n in pool if g.random() < 0.5]
        tgt = [n for n in pool if g.random() < 0.5]
        g.shuffle(src)
        g.shuffle(tgt)
        masked, rtype, mask = o["masked"], o["rtype"], o.get("mask")
        api = o["api"]
        if api == "lodo" and m.odd:
            api = "pack"
        if kind == "tensor" and mask is not None and api not in ("pack", "train", "deprecated"):
            mask = None
        if kind == "str" and rtype in ("tensor", "DeepDADataset"):
            rtype = "array"
        if api == "lodo":
            src = tgt = m.names()
            masked, mask = True, None
            fn = lambda: c.pack_lodo(return_X_y=None, return_type=rtype)          # noqa: E731
        elif api == "train":
            masked, rtype = True, "array"
            fn = lambda: c.pack_train(src, tgt, mask=mask)                        # noqa: E731
        elif api == "test":
            src, masked, rtype, mask = [], False, "array", None
            fn = lambda: c.pack_test(tgt)                                         # noqa: E731
        elif api == "deprecated":
            rtype = "Bunch"
            fn = lambda: c.pack(src, tgt, not masked, return_X_y=False, train=masked, mask=mask)   # noqa: E731
        else:
            fn = lambda: c.pack(as_sources=src, as_targets=tgt, mask_target_labels=masked, return_type=rtype, mask=mask)  # noqa: E731
        try:
            want = m.pack(src, tgt, masked, mask)
        except (KeyError, ValueError):
            return fn, None, True
        return fn, (lambda v: check_pack(v, want, rtype, kind)), False

    def compare(self, conts, models, out, when):
        for i, (c, m) in enumerate(zip(conts, models)):
            bad = None
            try:
                if list(c.domain_names_) != m.names() or [c.domain_names_[n] for n in m.names()] != list(range(1, len(m.doms) + 1)):
                    bad = "names %r instead of %r" % (dict(c.domain_names_), m.names())
                else:
                    for name, X, y in m.doms:
                        d = c.get_domain(name)
                        if len(d) != (1 if y is None else 2) or not np.array_equal(npy(d[0]), X) or (y is not None and not np.array_equal(npy(d[1]), y)):
                            bad = "domain %r is not what was added" % name
                            break
                    else:
                        if len(c.domains_) != len(m.doms):
                            bad = "%d domains stored, %d added" % (len(c.domains_), len(m.doms))
            except Exception as e:                       # noqa: BLE001
                bad = "reading container %d raised %s: %s" % (i, type(e).__name__, e)
            if bad:
                out.fail("D01:state", "after %s container %d no longer equals its model: %s" % (when, i, bad))
                return False
        return True

    def run(self, spec):
        out = Out()
        kind = spec["kind"]
        conts, models, packed = [DomainAwareDataset()], [Model(kind)], []
        mutated = False
        for j, o in enumerate(spec["ops"]):
            k = o["op"]
            g = rng("op", o.get("seed", 0))
            i = o.get("c", 0) % len(conts)
            c, m = conts[i], models[i]
            label = "%d %s" % (j, {a: b for a, b in o.items() if a != "seed"})
            raised = expect = None
            if k == "new":
                doms = []
                for q in range(1 + g.randrange(3)):
                    X, y = make_xy(g, kind, o["how"] == "list1")
                    doms.append((g.choice(["p", "q", "r", "_1", "_2"]) + ("" if o["how"] == "dup" else str(q)), X, y))
                if o["how"] == "dup":
                    doms = doms + [doms[0]]
                try:
                    if o["how"] == "empty":
                        nc, doms = DomainAwareDataset(), []
                    elif o["how"] == "dict":
                        nc = DomainAwareDataset({n: (X, y) for n, X, y in doms})
                    elif o["how"] == "list1":
                        nc = DomainAwareDataset([(X,) for _, X, _ in doms])
                    else:
                        nc = DomainAwareDataset([(X, y, n) for n, X, y in doms])
                except Exception as e:                   # noqa: BLE001
                    raised = e
                if o["how"] == "dup":
                    expect = True
                if raised is None and not expect and len(conts) < 5:
                    nm = Model(kind)
                    for q, (n, X, y) in enumerate(doms):
                        nm.add("_%d" % (q + 1) if o["how"] == "list1" else n, X, y)
                    conts.append(nc)
                    models.append(nm)
            elif k == "add":
                X, y = make_xy(g, kind, o["unl"])
                expect = o["name"] is not None and o["name"] in m.names()
                try:
                    ret = c.add_domain(X, y, o["name"]) if g.random() < 0.5 else c.add_domain(X, y=y, domain_name=o["name"])
                    if ret is not c:
                        out.fail("D01:return", "add_domain did not return the container")
                except Exception as e:                   # noqa: BLE001
                    raised = e
                if raised is None and not expect:
                    name = o["name"]
                    if name is None:
                        new = [n for n in c.domain_names_ if n not in m.names()]
                        if len(new) != 1:
                            out.fail("D01:autoname", "adding an unnamed domain to %r gave names %r" % (m.names(), list(c.domain_names_)))
                            return out
                        name = new[0]
                    m.add(name, X, y)
                    mutated = True
            elif k == "odd":
                # unusual arguments: refused without a trace, or kept as given
                X, y = make_xy(g, kind, False)
                name, how = o["name"], o["how"]
                if how == "name":
                    name = [name]
                elif how == "mismatch":
                    y = y[:-1] if g.random() < 0.5 and len(y) > 1 else (torch.cat([y, y]) if isinstance(y, torch.Tensor) else np.concatenate([y, y]))
                elif how == "nosamples":
                    X, y = None, None
                elif kind != "tensor":
                    X = X.tolist()
                try:
                    c.add_domain(X, y, name)
                except Exception as e:                   # noqa: BLE001
                    raised = e
                if how == "name" or name in m.names():
                    expect = True
                elif raised is None:
                    if how == "nosamples":               # a domain nobody can use: forget this container
                        conts[i] = DomainAwareDataset()
                        models[i] = Model(kind)
                    else:
                        m.add(name, X, y)
                        m.odd.add(name)
                        mutated = True
                else:
                    expect = True                        # refusing is fine too
            elif k == "merge":
                d = o["d"] % len(conts)
                dm = models[d]
                mp = None
                if o["map"] == "fresh":
                    mp = {n: "m%d_%s" % (j, n) for n in dm.names()}
                elif o["map"] == "part":
                    mp = {n: "m%d_%s" % (j, n) for n in dm.names()[::2]}
                elif o["map"] == "clash":
                    mp = {n: "m%d" % j for n in dm.names()}
                elif o["map"] == "same":
                    mp = {}
                final = [(mp or {}).get(n, n) for n in dm.names()]
                expect = len(set(final + m.names())) != len(final) + len(m.names())
                src = [(n, dm.find(q)[1], dm.find(q)[2]) for n, q in zip(final, dm.names())]
                try:
                    ret = c.merge(conts[d], mp) if mp is not None else c.merge(conts[d])
                    if ret is not c:
                        out.fail("D01:return", "merge did not return the container")
                except Exception as e:                   # noqa: BLE001
                    raised = e
                if raised is None and not expect:
                    for n, X, y in src:
                        m.add(n, X, y)
                    m.odd |= {n for n, q in zip(final, dm.names()) if q in dm.odd}
                    mutated = True
            elif k == "copy":
                if len(conts) < 5:
                    if o["how"] == "pickle":
                        blob = pickle.dumps(c)
                        blob2 = forked(lambda: pickle.dumps(pickle.loads(blob)))      # through another process
                        conts.append(pickle.loads(blob2))
                        models.append(m.copy())
                        out.hit("fault:process-restart")
                    elif o["how"] == "deepcopy":
                        conts.append(copy.deepcopy(c))
                        models.append(m.copy())
                    else:
                        conts.append(DomainAwareDataset().merge(c))
                        models.append(m.copy())
            elif k == "scribble":
                for v in packed:
                    for a in v:
                        try:
                            a[...] = 0
                        except (ValueError, TypeError, RuntimeError):
                            pass
                packed = []
            else:
                fn, chk, expect = self.query(o, c, m, kind)
                f = o.get("fault")
                if f:
                    hook = raise_at(f["at"], EXCS[f["kind"]])
                    val, exc, n, _ = ENGINE.run_single(fn, hook=hook)
                    out.instants += n
                    if hook.state["fired"]:
                        out.hit("fault:" + f["kind"])
                        out.nontrivial = True
                        out.note(label, "interrupted at", f["at"], hook.state["at"])
                        if not self.compare(conts, models, out, "%s, interrupted at instant %d," % (label, f["at"])):
                            return out
                        fn, chk, expect = self.query(o, c, m, kind)
                        val, exc, n, _ = ENGINE.run_single(fn)
                else:
                    val, exc, n, _ = ENGINE.run_single(fn)
                    out.instants += n
                raised = exc
                out.nontrivial = out.nontrivial or mutated
                if exc is None and chk is not None:
                    bad = chk(val)
                    if bad is None and k == "pack":
                        for _ in range(1):
                            bad = chk(fn())
                            bad = bad and "the same call repeated: " + bad
                    if bad:
                        out.fail("D01:%s" % k, "%s on container %r: %s" % (label, [(n, None if y is None else str(y.dtype)) for n, _, y in m.doms], bad))
                        return out
                    if k == "pack" and isinstance(val, tuple):
                        packed.append(val)
            out.note(label, "raised " + type(raised).__name__ if raised is not None else "ok")
            out.hit("op:" + k)
            if expect and raised is None:
                out.fail("D01:accepted", "%s should have failed" % label)
                return out
            if expect:
                out.hit("fault:failing-call")
            if raised is not None and not expect:
                out.fail("D01:raised", "%s on %r raised %s: %s" % (label, m.names(), type(raised).__name__, raised))
                return out
            if not self.compare(conts, models, out, label):
                return out
        cc = spec.get("conc")
        if cc:
            i = cc["c"] % len(conts)
            qs = [self.query(o, conts[i], models[i], kind) for o in cc["ops"]]
            est = 40 * len(qs)
            dec = Recording(make_decider(cc["sched"], len(qs), rng, est))
            tasks = ENGINE.run_tasks([q[0] for q in qs], dec)
            out.instants += ENGINE.n
            out.hit("thread switches", len(ENGINE.switches))
            out.note("switches", ENGINE.switches[:30])
            out.nontrivial = out.nontrivial or len(ENGINE.switches) > len(qs)
            for t, (fn, chk, expect), o in zip(tasks, qs, cc["ops"]):
                if t.exc is not None:
                    if not expect:
                        out.fail("D01:concurrent", "%s run concurrently raised %s: %s" % (o, type(t.exc).__name__, t.exc))
                elif expect:
                    out.fail("D01:accepted", "%s should have failed" % o)
                else:
                    bad = chk(t.result)
                    if bad:
                        out.fail("D01:concurrent", "%s run concurrently: %s" % (o, bad))
            self.compare(conts, models, out, "concurrent queries")
        return out
