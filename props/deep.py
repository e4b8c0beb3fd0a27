"""T01-T05: the deep methods - batches, evaluation, training histories, state
carried between batches, and the deep data set."""
import copy
import io
import pickle
import random

import numpy as np
import pandas as pd
import torch
import torch.nn.functional as F
from sklearn.base import clone
from skorch import NeuralNet
from skorch.callbacks import Callback

from skada.deep.base import (DeepDADataset, DomainBalancedDataLoader, DomainBalancedSampler,
                             DomainOnlyDataLoader, DomainOnlySampler)

from props import deepzoo as Z
from props.common import Pristine, gen_fault, outcome_all, run_faulted
from props.conc import alone, init_thread, run_schedule, shrink_trace
from skada import metrics as M
from sim import world as W
from sim.canon import Raised, digest, outcome, same
from sim.engine import ENGINE, gen_sched
from sim.runner import Out, Prop, forked, rng, subseed

REAL = ["skada.deep (samplers, loaders, modules, criteria, callbacks, data set)", "skorch's training loop", "PyTorch on one CPU thread",
        "CPython threads, one running at a time"]
STUBS = ["the operating system's thread scheduler (the simulator picks the running thread)",
         "the user's network (a small two-layer module with optional batch normalisation and dropout)"]
# skorch's training and inference loops are interruptible and preemptible too;
# its registration of modules and optimizers is not (it is not skada's to make safe)
SKORCH = ["fit", "partial_fit", "fit_loop", "run_single_epoch", "train_step", "train_step_single", "get_loss", "infer",
          "evaluation_step", "forward_iter", "forward", "predict_proba", "_set_training", "_zero_grad_optimizer", "_step_optimizer", "notify"]
ASSUME = ["skorch's registration of modules and optimizers during initialisation is atomic", "PyTorch calls made by skada and skorch are atomic", "training on one CPU thread; no GPU, no loader worker processes"]


def rng_save():
    return torch.get_rng_state(), np.random.get_state(), random.getstate()


def rng_load(s):
    torch.set_rng_state(s[0])
    np.random.set_state(s[1])
    random.setstate(s[2])


class DeepProp(Prop):
    real, stubs, assumptions = REAL, STUBS, ASSUME
    quick = {"seconds": 30, "runs": 200000}
    needs_torch = True
    lists = ()
    min_list = 0

    def setup(self):
        Z.warm()
        W.setup_process()
        ENGINE.install_extra([getattr(NeuralNet, n) for n in SKORCH if hasattr(NeuralNet, n)] + [Z.Mod])

    def shrink(self, spec):
        for l in self.lists:
            for i in range(len(spec[l])):
                if len(spec[l]) > self.min_list:
                    yield dict(spec, **{l: spec[l][:i] + spec[l][i + 1:]})
            for i, o in enumerate(spec[l]):
                if isinstance(o, dict) and o.get("fault"):
                    yield dict(spec, **{l: spec[l][:i] + [dict(o, fault=None)] + spec[l][i + 1:]})
        if spec.get("conc"):
            yield dict(spec, conc=None)
            c = spec["conc"]
            for s in shrink_trace(c["sched"]):
                yield dict(spec, conc=dict(c, sched=s))
            if len(c.get("ops", [])) > 1:
                for i in range(len(c["ops"])):
                    yield dict(spec, conc=dict(c, ops=c["ops"][:i] + c["ops"][i + 1:]))
        if "net" in spec:
            n = spec["net"]
            for k, v in (("epochs", 1), ("drop", 0.0), ("bn", False), ("opt", None), ("h", 3)):
                if n.get(k, v) != v:
                    yield dict(spec, net=dict(n, **{k: v}))
        for i, d in enumerate(spec.get("data", [])):
            for d2 in W.shrink_data(d):
                if d2["d"] == d["d"]:
                    yield dict(spec, data=spec["data"][:i] + [d2] + spec["data"][i + 1:])


# ---- nets -------------------------------------------------------------------
def gen_datas(r, n, multi_ok=True):
    first = W.gen_data(r, r.choice(["bin", "multi"]), multi_ok=multi_ok)
    out = []
    for i in range(n):
        d = W.gen_data(r, first["task"], multi_ok=multi_ok, nd=first["d"])
        d.pop("dtype", None)
        d["d"] = first["d"]
        out.append(d)
    return out


def net_spec(r, datas, names=None):
    c = Z.gen_net(r, names)
    if datas[0]["task"] == "multi":
        c["k"] = 3
    return c


def alike(r, c):
    """The same net, or one that differs in one argument."""
    c = dict(c)
    if "rs" in c and r.random() < 0.6:
        c["rs"] = (c["rs"] + 1) % 3
    elif r.random() < 0.6:
        k = "rs" if "rs" in c and r.random() < 0.6 else r.choice([k for k in ("rs", "reg", "h", "batch") if k in c or k == "reg"])
        c[k] = {"rs": r.randrange(3), "reg": r.choice([0.05, 0.3, 2.0]), "h": r.choice([3, 5]), "batch": r.choice([4, 5, 8])}[k]
    return c


def labels(c, D):
    return D["y_true"] if c["name"] == "TargetOnly" else D["y"]


def fit_net(net, c, D, seed):
    W.seed_globals(seed)
    return net.fit(D["X"], labels(c, D), sample_domain=D["sd"])


def more_training(net, c, D, seed, epochs=1):
    W.seed_globals(seed)
    ds = DeepDADataset(D["X"], labels(c, D), D["sd"])
    return net.partial_fit(ds, None, is_fit=True, epochs=epochs)


def tensors(d):
    return {k: v.detach().cpu().numpy().copy() if isinstance(v, torch.Tensor) else v for k, v in d.items()}


def losses(net):
    ls = [row.get("train_loss") for row in net.history]
    return [x if x is None else round(float(x), 12) if x == x else "nan" for x in ls]


def carried(net):
    a = net.criterion_.adapt_criterion
    out = {}
    for k in ("n_epochs", "memory_features", "memory_outputs"):
        if getattr(a, k, None) is not None:
            v = getattr(a, k)
            out[k] = v.detach().numpy().copy() if isinstance(v, torch.Tensor) else v
    km = getattr(a, "target_kmeans", None)
    if km is not None:
        out["centers"] = km.cluster_centers_.numpy().copy()
    return out


def net_state(net):
    """What training has produced: parameters, statistics, optimizer, history, carried state."""
    opt = net.optimizer_.state_dict()
    return {"params": tensors(net.module_.state_dict()), "opt": {str(k): tensors(v) for k, v in opt["state"].items()},
            "losses": losses(net), "carried": carried(net)}


def config(net):
    """The constructor parameters as far as they can be named."""
    out = {}
    for k, v in net.get_params(deep=False).items():
        if v is None or isinstance(v, (bool, int, float, str)):
            out[k] = repr(v)
        elif isinstance(v, (list, tuple, dict)):
            out[k] = "%s of %d" % (type(v).__name__, len(v))
        else:
            out[k] = getattr(v, "__name__", type(v).__name__)
    return out


FORMS = ["array", "dict", "dataset", "tensor"]
EVALS = ["predict", "predict_proba", "predict_features", "score"] * 2 + ["score:mano", "score:dev", "score:entropy", "score:snd", "score:supervised", "score:iw", "score:mix"]
SCORERS = {"mano": lambda: M.MaNoScorer(), "dev": lambda: M.DeepEmbeddedValidation(random_state=3),
           "entropy": lambda: M.PredictionEntropyScorer(), "snd": lambda: M.SoftNeighborhoodDensity(),
           "supervised": lambda: M.SupervisedScorer(), "iw": lambda: M.ImportanceWeightedScorer(), "mix": lambda: M.MixValScorer(random_state=5)}


def gen_eval(r):
    return {"op": r.choice(EVALS), "d": r.randrange(2), "form": r.choice(FORMS), "part": r.choice(["all", "target", "source", "one"]),
            "allow": r.random() < 0.7, "bad": r.random() < 0.07}


def do_eval(net, c, o, DS):
    D = DS[o["d"] % len(DS)]
    if o["part"] == "target":
        m = D["sd"] < 0
    elif o["part"] == "source":
        m = D["sd"] >= 0
    elif o["part"] == "one":
        m = np.zeros(len(D["sd"]), bool)
        m[np.flatnonzero(D["sd"] < 0)[0]] = True
    else:
        m = np.ones(len(D["sd"]), bool)
    X, sd, y = D["X"][m], D["sd"][m], D["y_true"][m]
    if o["bad"]:
        X = np.concatenate([X, X], axis=1)
    allow = o["allow"] or (o["op"] == "score" and o["part"] not in ("target", "one"))
    if o["op"].startswith("score:"):
        kw = {"allow_source": True} if o["op"] == "score:entropy" and allow else {}
        if o["op"] == "score:supervised":
            kw["target_labels"] = y
        return SCORERS[o["op"][6:]]()(net, X, y, sample_domain=sd, **kw)
    if o["form"] == "tensor":
        X, sd = torch.tensor(X), torch.tensor(sd)
    if o["op"] == "predict_features":
        if o["form"] == "dict":
            return net.predict_features({"X": X, "sample_domain": sd})
        if o["form"] == "dataset":
            return net.predict_features(DeepDADataset(X, None, sd))
        return net.predict_features(X)
    args = (X, sd)
    if o["form"] == "dict":
        args = ({"X": X, "sample_domain": sd}, None)
    elif o["form"] == "dataset":
        args = (DeepDADataset(X, None, sd), None)
    if o["op"] == "score":
        return net.score(args[0], y, args[1], allow_source=allow)
    return getattr(net, o["op"])(args[0], args[1], allow_source=allow)


# ---- T01 --------------------------------------------------------------------
def rows_dataset(spec):
    g = rng("t01", spec["seed"])
    sds = []
    for i in range(spec["ns"]):
        sds.append(1 + g.randrange(spec["doms"]) if not spec.get("zero") else g.randrange(spec["doms"]))
    for i in range(spec["nt"]):
        sds.append(-(4 + g.randrange(spec["doms"])))
    if spec["layout"] == "mixed":
        g.shuffle(sds)
    elif spec["layout"] == "tfirst":
        sds.sort()
    n = len(sds)
    X = np.arange(2 * n, dtype=np.float32).reshape(n, 2)
    y = np.arange(n) % 3
    if spec["container"] == "list":
        return [({"X": X[i], "sample_domain": sds[i]}, int(y[i])) for i in range(n)], np.array(sds)
    w = (np.arange(n, dtype=np.float32) + 1) if spec["container"] == "weighted" else None
    return DeepDADataset(X, y, np.array(sds), w), np.array(sds)


def check_side(seq, side, cover, what):
    """seq must be whole permutations of side one after the other (the last may be cut short)."""
    n = len(side)
    s = set(side)
    for a in range(0, len(seq), n):
        part = seq[a:a + n]
        if len(set(part)) != len(part):
            return "%s repeats an index before every other one was served: %s" % (what, part)
        if not set(part) <= s:
            return "%s contains indices of the other side or out of range: %s (valid: %s)" % (what, sorted(set(part) - s), sorted(s))
    return None


class T01(DeepProp):
    pid = "T01"
    rule = "a run counts when at least two iterators over one sampler or loader were consumed (interleaved, abandoned, restarted or in threads); distinct = (arrangement, sampler, plan, schedule)"
    lists = ("its",)
    batch = 12

    def gen(self, r, tier):
        spec = {"seed": r.randrange(1 << 30), "ns": r.choice([1, 2, 3, 5, 8, 11, 16]), "nt": r.choice([1, 2, 4, 7, 8, 13, 17]),
                "doms": r.choice([1, 1, 2, 3]), "layout": r.choice(["block", "mixed", "mixed", "tfirst"]), "zero": r.random() < 0.3,
                "container": r.choice(["dataset", "dataset", "weighted", "list"]), "b": r.choice([1, 2, 3, 4, 5, 8, 20]),
                "kind": r.choice(["balanced", "balanced", "only"]), "how": r.choice(["sampler", "loader"]),
                "max": r.choice(["max", "max", "min", "source", "target"]), "side": r.choice(["source", "target"]),
                "drop": r.random() < 0.3, "its": [], "order": [r.randrange(100) for _ in range(60)], "mid": r.choice([None, None, "pickle", "deepcopy"])}
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            spec["its"].append({"take": r.choice([10 ** 6] * 3 + [1, 2, 3]), "kind": r.choice(["iter"] * 4 + ["len", "fault", "reseed"]),
                                "u": round(r.random(), 6), "v": round(r.random(), 6), "exc": r.choice(["interrupt", "nomem", "error"]),
                                "rs": r.choice([None, 0, 7])})
        if r.random() < 0.35:
            spec["conc"] = {"sched": gen_sched(r)}
            if r.random() < 0.3:
                spec["conc"]["sched"]["grain"] = "instruction"
        return spec

    def shrink(self, spec):
        yield from super().shrink(spec)
        for k, v in (("ns", 3), ("ns", 2), ("nt", 2), ("nt", 3), ("b", 1), ("b", 2), ("doms", 1), ("layout", "block"), ("container", "dataset"), ("mid", None), ("drop", False)):
            if spec[k] != v:
                yield dict(spec, **{k: v})

    def make(self, spec, data):
        if spec["kind"] == "balanced":
            if spec["how"] == "sampler":
                return DomainBalancedSampler(data, spec["b"], max_samples=spec["max"])
            return DomainBalancedDataLoader(data, spec["b"], max_samples=spec["max"], drop_last=spec["drop"])
        if spec["how"] == "sampler":
            return DomainOnlySampler(data, spec["b"], spec["side"])
        return DomainOnlyDataLoader(data, spec["b"], spec["side"], drop_last=spec["drop"])

    def indices(self, spec, data, sds, item):
        """Dataset indices of one served item (an index or a batch), or a complaint."""
        if spec["how"] == "sampler":
            return [int(item)], None
        X, y = item
        idx = [int(v) for v in X["X"][:, 0] / 2]
        n = len(sds)
        for j, i in enumerate(idx):
            if not 0 <= i < n or int(X["sample_domain"][j]) != sds[i] or int(y[j]) != i % 3:
                return None, "row %d of a batch mixes data of different samples" % j
            if spec["container"] == "weighted" and float(X["sample_weight"][j]) != i + 1:
                return None, "row %d of a batch carries another sample's weight" % j
        return idx, None

    def expected(self, spec, sds):
        P, N = [int(i) for i in np.flatnonzero(sds >= 0)], [int(i) for i in np.flatnonzero(sds < 0)]
        b = spec["b"]
        fp, fn = len(P) // b * b, len(N) // b * b
        if spec["kind"] == "only":
            side = P if spec["side"] == "source" else N
            k = len(side) // b * b
            return (side,), k, k // b
        k = {"max": max(fp, fn), "min": min(fp, fn), "source": fp, "target": fn}[spec["max"]]
        return (P, N), k, k // b

    def verdict(self, spec, data, sds, served, complete):
        sides, k, nb = self.expected(spec, sds)
        seqs = [[] for _ in sides]
        for item in served:
            idx, bad = self.indices(spec, data, sds, item)
            if bad:
                return bad
            if spec["how"] == "loader":
                if spec["kind"] == "balanced":
                    a = sum(1 for i in idx if sds[i] >= 0)
                    if len(idx) != 2 * spec["b"] or 2 * a != len(idx):
                        return "a batch holds %d source and %d target samples instead of %d of each" % (a, len(idx) - a, spec["b"])
                elif len(idx) != spec["b"]:
                    return "a batch holds %d samples instead of %d" % (len(idx), spec["b"])
            for i in idx:
                if not 0 <= i < len(sds):
                    return "index %d of a data set of %d" % (i, len(sds))
                if spec["kind"] == "only":
                    seqs[0].append(i)
                else:
                    seqs[0 if sds[i] >= 0 else 1].append(i)
        if spec["kind"] == "balanced" and spec["how"] == "sampler":
            for a in range(0, len(served) - 1, 2):
                u, v = int(served[a]), int(served[a + 1])
                if (sds[u] >= 0) == (sds[v] >= 0):
                    return "consecutive samples %d and %d are of the same side" % (u, v)
        for side, seq, name in zip(sides, seqs, ("the source side", "the target side") if len(sides) == 2 else (spec["side"] + " side",)):
            bad = check_side(seq, side, k, name)
            if bad:
                return bad
            if complete and len(seq) != k:
                return "%s was served %d times instead of %d" % (name, len(seq), k)
        return None

    def run(self, spec):
        out = Out()
        data, sds = rows_dataset(spec)
        W.seed_globals(subseed(spec["seed"], "g"))
        obj = self.make(spec, data)
        sides, k, nb = self.expected(spec, sds)
        want_len = nb if spec["how"] == "loader" else k * len(sides)
        name = "%s %s(b=%d, %s) over %d source and %d target samples" % (
            spec["kind"], spec["how"], spec["b"], spec["max"] if spec["kind"] == "balanced" else spec["side"], int((sds >= 0).sum()), int((sds < 0).sum()))
        its = spec["its"]
        got = [[] for _ in its]
        errs = [None] * len(its)
        lens = []

        def stepper(j):
            it = its[j]
            if it["kind"] == "len":
                lens.append(len(obj))
                return
            if it["kind"] == "reseed":
                for _ in range(4):
                    if it["rs"] is not None:
                        torch.manual_seed(it["rs"])
                    torch.rand(3)
                    yield
                return
            if it["kind"] == "fault":
                return
            try:
                for q, item in enumerate(obj):
                    got[j].append(item)
                    if q + 1 >= it["take"]:
                        break
                    if q > 600:
                        break
                    yield
            except Exception as e:                       # noqa: BLE001
                errs[j] = Raised(e)
        for j, it in enumerate(its):
            if it["kind"] == "fault":
                v = run_faulted(lambda: list(obj), {"kind": it["exc"], "u": it["u"], "v": it["v"]}, out, "iterator %d" % j)
                if not isinstance(v, Raised):
                    bad = self.verdict(spec, data, sds, v, True)
                    if bad:
                        out.fail("T01:%s:swallowed" % spec["kind"], "%s: an iteration hit by a fault served wrong samples: %s" % (name, bad))
                        return out
        if spec.get("mid") == "pickle" and spec["how"] == "sampler":
            obj = pickle.loads(pickle.dumps(obj))
        elif spec.get("mid") == "deepcopy":
            obj = copy.deepcopy(obj)
        trace = None
        if spec.get("conc") and len(its) > 1:
            fns = [lambda j=j: [None for _ in stepper(j)] for j in range(len(its))]
            _, trace = run_schedule(fns, spec["conc"]["sched"], 30 * len(fns), out)
        else:
            live = {j: stepper(j) for j in range(len(its))}
            steps = 0
            while live:
                js = sorted(live)
                j = js[spec["order"][steps % len(spec["order"])] % len(js)]
                steps += 1
                try:
                    next(live[j])
                except StopIteration:
                    del live[j]
        # one more full epoch afterwards
        its = its + [{"kind": "iter", "take": 10 ** 6}]
        got.append([])
        errs.append(None)
        v = outcome_all(lambda: list(obj), out)
        if isinstance(v, Raised):
            errs[-1] = v
        else:
            got[-1] = v
        lens.append(len(obj))
        out.hit("kind:%s-%s" % (spec["kind"], spec["how"]))
        out.nontrivial = True
        out.note(name, [(i["kind"], i["take"]) for i in its], (trace or {}).get("switches", spec["order"][:8]))
        out.state = digest([{a: b for a, b in spec.items() if a not in ("order", "_run")}, trace or spec["order"]])

        def bad(sig, msg):
            out.fail("T01:%s:%s" % (spec["kind"], sig), "%s: %s" % (name, msg))
            if trace:
                out.viol["trace_spec"] = dict(spec, conc={"sched": trace})
            return out
        for n in lens:
            if n != want_len:
                return bad("length", "reports length %d but serves %d" % (n, want_len))
        for j, it in enumerate(its):
            if it["kind"] != "iter":
                continue
            if errs[j] is not None:
                return bad("raised", "iterator %d raised %r" % (j, errs[j]))
            full = it["take"] >= 10 ** 6
            b = self.verdict(spec, data, sds, got[j], full)
            if b:
                return bad("content", "iterator %d of %d: %s" % (j, len(its), b))
            if full and len(got[j]) != want_len:
                return bad("content", "iterator %d served %d items instead of %d" % (j, len(got[j]), want_len))
        return out


# ---- T02 --------------------------------------------------------------------
def half(x):
    return x / 2


NONLIN = {"auto": "auto", "none": None, "half": half}


class T02(DeepProp):
    pid = "T02"
    rule = "a run counts when at least two evaluations were made of one fitted model, or one was interrupted; distinct = (model, operations, faults, schedule)"
    lists = ("ops",)

    def gen(self, r, tier):
        datas = gen_datas(r, 2)
        spec = {"seed": r.randrange(1 << 30), "data": datas, "net": net_spec(r, datas), "live": r.choice(["fresh", "fresh", "pickle", "deepcopy"]),
                "ops": [dict(gen_eval(r), fault=gen_fault(r, 0.3)) for _ in range(r.choice([1, 2, 3, 5]))], "later": r.random() < 0.5}
        spec["nonlin"] = r.choice(["auto"] * 6 + ["none", "half"])
        if r.random() < 0.6:
            spec["conc"] = {"ops": [gen_eval(r) for _ in range(r.choice([2, 2, 3]))], "sched": gen_sched(r)}
        return spec

    def run(self, spec):
        out = Out()
        c = spec["net"]
        DS = [Z.deep_data(d) for d in spec["data"]]
        nonlin = NONLIN[spec.get("nonlin", "auto")]
        net = Z.build_net(c, spec["data"][0]["d"], extra={"predict_nonlinearity": nonlin})
        v = outcome(lambda: fit_net(net, c, DS[0], subseed(spec["seed"], "fit")))
        out.hit("net:" + c["name"])
        if isinstance(v, Raised):
            out.note("fit raised", v)
            out.hit("fit raised")
            return out
        if spec["live"] == "pickle":
            net = pickle.loads(pickle.dumps(net))
        elif spec["live"] == "deepcopy":
            net = copy.deepcopy(net)
        before = dict(net_state(net), config=config(net))
        allops = spec["ops"] + (spec["conc"]["ops"] if spec.get("conc") else [])
        refs = forked(lambda: [self.one(net, c, o, DS) for o in allops_unique(allops)])
        refs = {opkey(o): r for o, r in zip(allops_unique(allops), refs)}
        if spec.get("nonlin", "auto") != "auto":
            # what the chosen nonlinearity is applied to is the raw output
            bad = forked(lambda: self.raw_check(net, nonlin, DS[0]))
            if bad:
                out.fail("T02:nonlinearity", "%s with predict_nonlinearity=%s: %s" % (c["name"], spec["nonlin"], bad))
                return out
        est = 40 + sum(refs[opkey(o)][1] for o in (spec["conc"]["ops"] if spec.get("conc") else []))
        later = None
        if spec["later"]:
            later = forked(lambda: self.later(net, c, DS, spec))
        name = c["name"]
        for j, o in enumerate(spec["ops"]):
            W.seed_globals(subseed(spec["seed"], "e", j))
            fn = lambda: do_eval(net, c, o, DS)          # noqa: E731
            v = run_faulted(fn, o["fault"], out, opkey(o)) if o.get("fault") else outcome_all(fn, out)
            out.hit("op:" + o["op"])
            if isinstance(v, Raised) and o.get("fault"):
                v = None
            out.note(opkey(o), "->", "interrupted" if v is None else digest(v) if not isinstance(v, Raised) else v)
            if v is not None:
                d = same(v, refs[opkey(o)][0])
                if d:
                    out.fail("T02:%s:result" % o["op"], "%s: %s, after %d other evaluations, differs from the same call made first: %s" % (name, opkey(o), j, d))
                    return out
            d = same(dict(net_state(net), config=config(net)), before)
            if d:
                out.fail("T02:%s:state" % o["op"], "%s: %s%s changed the fitted model: %s" % (name, opkey(o), ", interrupted," if o.get("fault") else "", d))
                return out
        trace = None
        cc = spec.get("conc")
        if cc and cc["ops"]:
            ops = cc["ops"]
            fns = [lambda o=o: outcome(lambda: do_eval(net, c, o, DS)) for o in ops]
            W.seed_globals(subseed(spec["seed"], "conc"))
            res, trace = run_schedule(fns, cc["sched"], est, out)
            out.note("threads", [opkey(o) for o in ops], trace["switches"][:40])
            for o, v in zip(ops, res):
                d = same(v, refs[opkey(o)][0])
                if d:
                    out.fail("T02:%s:concurrent" % o["op"], "%s: %s in one of %d threads evaluating the same model differs from the call made alone: %s" % (name, opkey(o), len(ops), d))
                    out.viol["trace_spec"] = dict(spec, conc=dict(cc, sched=trace))
                    return out
            d = same(dict(net_state(net), config=config(net)), before)
            if d:
                out.fail("T02:state:concurrent", "%s: concurrent evaluations changed the fitted model: %s" % (name, d))
                out.viol["trace_spec"] = dict(spec, conc=dict(cc, sched=trace))
                return out
        if spec["later"]:
            now = self.later(net, c, DS, spec)
            d = same(now, later)
            if d:
                out.fail("T02:later", "%s: training that follows evaluations differs from training without them: %s" % (name, d))
                return out
        out.nontrivial = len(allops) > 1 or any(o.get("fault") for o in spec["ops"])
        out.state = digest([c, spec["live"], [(opkey(o), o.get("fault")) for o in spec["ops"]], trace])
        return out

    @staticmethod
    def raw_check(net, nonlin, D):
        v = outcome(lambda: net.predict_proba(D["X"], D["sd"], allow_source=True))
        net.module_.eval()
        with torch.no_grad():
            raw = net.module_.base_module_(torch.tensor(D["X"]))
        raw = raw[0] if isinstance(raw, tuple) else raw
        return same(v, (raw if nonlin is None else nonlin(raw)).numpy())

    def one(self, net, c, o, DS):
        v, exc, n, _ = ENGINE.run_single(lambda: do_eval(net, c, o, DS))
        if exc is not None:
            if not isinstance(exc, Exception):
                raise exc
            v = Raised(exc)
        return v, n

    def later(self, net, c, DS, spec):
        v = outcome(lambda: more_training(net, c, DS[0], subseed(spec["seed"], "later")))
        return v if isinstance(v, Raised) else net_state(net)


def opkey(o):
    return "%s(d%d,%s,%s%s%s)" % (o["op"], o["d"], o["form"], o["part"], ",allow" if o["allow"] else "", ",bad" if o["bad"] else "")


def allops_unique(ops):
    seen, out = set(), []
    for o in ops:
        if opkey(o) not in seen:
            seen.add(opkey(o))
            out.append(o)
    return out


# ---- T03 --------------------------------------------------------------------
class Rec(Callback):
    """A user's callback: counts what it sees."""

    def __init__(self):
        self.seen_ = 0

    def on_batch_end(self, net, batch=None, training=None, **kw):
        self.seen_ += 1


def classifier_param(net):
    return getattr(net, "module__domain_classifier", None)


def seeded_result(net, c, D, seed):
    """Outcome of a seeded fit and everything observable after it."""
    v = outcome(lambda: fit_net(net, c, D, seed))
    if isinstance(v, Raised):
        return v
    return observe(net, D)


def observe(net, D):
    r = {"losses": losses(net), "params": tensors(net.module_.state_dict()), "carried": carried(net)}
    r["proba"] = outcome(lambda: net.predict_proba(D["X"], D["sd"], allow_source=True))
    r["feat"] = outcome(lambda: net.predict_features(D["X"]))
    return r


def fresh_result(c, d, mods, D, seed):
    """In a process that never trained anything: a new net around these modules."""
    m, dc = pickle.loads(mods)
    net = Z.build_net(c, d, mod=m)
    if dc is not None:
        net.set_params(module__domain_classifier=dc)
    return seeded_result(net, c, D, seed)


def restored_result(c, blob, D, seed, go_on):
    net = pickle.loads(blob)
    r = observe(net, D)
    if go_on:
        v = outcome(lambda: more_training(net, c, D, seed, 2))
        r["on"] = v if isinstance(v, Raised) else observe(net, D)
    return r


class T03(DeepProp):
    pid = "T03"
    rule = "a run counts when something happened to the object, or next to it, before or during the last fit; distinct = (method, history, faults, schedule)"
    lists = ("steps",)

    def gen(self, r, tier):
        datas = gen_datas(r, 3)
        c = net_spec(r, datas)
        steps = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.choice(["fit", "fit", "fit", "fit", "partial", "eval", "other", "other", "clone", "pickle"])
            s = {"op": k, "d": r.randrange(3), "seed": r.randrange(1000)}
            if k in ("fit", "partial", "other"):
                s["fault"] = gen_fault(r, 0.6)
            if k == "eval":
                s.update(gen_eval(r), op="eval", ev=r.choice(EVALS))
            if k == "other":
                s["net"] = alike(r, c) if r.random() < (0.8 if "rs" in c else 0.5) else net_spec(r, datas)
                s["share"] = r.random() < 0.5
            steps.append(s)
        spec = {"seed": r.randrange(1 << 30), "data": datas, "net": c, "cb": r.choice([None, 0, 1, 2]), "steps": steps,
                "restore": r.random() < 0.6, "on": r.random() < 0.5, "streams": r.random() < 0.3}
        if r.random() < 0.4:
            spec["conc"] = {"net": alike(r, c) if r.random() < 0.6 else net_spec(r, datas), "d": r.randrange(3), "sched": gen_sched(r)}
        return spec

    def shrink(self, spec):
        yield from super().shrink(spec)
        if spec["restore"]:
            yield dict(spec, restore=False)
        if spec["cb"] is not None:
            yield dict(spec, cb=None)

    def run(self, spec):
        out = Out()
        c, d = spec["net"], spec["data"][0]["d"]
        DS = [Z.deep_data(x) for x in spec["data"]]
        pris = [Pristine(fresh_result), Pristine(fresh_result), Pristine(restored_result)]
        try:
            return self._run(spec, out, c, d, DS, pris)
        finally:
            for p in pris:
                p.close()

    def _run(self, spec, out, c, d, DS, pris):
        cbs = None if spec["cb"] is None else [Rec() for _ in range(spec["cb"])]
        before = None if cbs is None else list(cbs)
        name = c["name"]
        out.hit("net:" + name)

        def cb_changed(when):
            if cbs is not None and (len(cbs) != len(before) or any(a is not b for a, b in zip(cbs, before))):
                out.fail("T03:callbacks", "%s: %s changed the list of callbacks it was given: %s" % (name, when, [type(x).__name__ for x in cbs]))
                return True
            return False
        net = Z.build_net(c, d, callbacks=cbs)
        if cb_changed("building the net"):
            return out
        for j, s in enumerate(spec["steps"]):
            D, k = DS[s["d"] % len(DS)], s["op"]
            if k == "fit":
                fn = lambda: fit_net(net, c, D, s["seed"])                    # noqa: E731
            elif k == "partial":
                fn = lambda: more_training(net, c, D, s["seed"])              # noqa: E731
            elif k == "eval":
                fn = lambda: do_eval(net, c, dict(s, op=s["ev"]), DS)         # noqa: E731
            elif k == "other":
                on = Z.build_net(s["net"], d, callbacks=cbs if s["share"] else None)
                fn = lambda: fit_net(on, s["net"], D, s["seed"])              # noqa: E731
            elif k == "clone":
                net = clone(net)
                out.note("clone")
                continue
            else:
                net = pickle.loads(pickle.dumps(net))
                out.note("pickle")
                out.hit("fault:process-restart")
                continue
            W.seed_globals(s["seed"] + 3)
            v = run_faulted(fn, s["fault"], out, "%d %s" % (j, k)) if s.get("fault") else outcome_all(fn, out)
            out.hit("step:" + k)
            out.note(j, k, s.get("ev", ""), v if isinstance(v, Raised) else "ok")
            if cb_changed("%s %d" % (k, j)):
                return out
        mods = pickle.dumps((net.module__base_module, classifier_param(net)))
        D = DS[0]
        seed = subseed(spec["seed"], "final")
        cc, trace = spec.get("conc"), None
        want = pris[0].call(c, d, mods, D, seed)
        hist = "%s%s" % ([s["op"] + ("!" if s.get("fault") else "") for s in spec["steps"]], " with another net training at the same time" if cc else "")
        if cc:
            D2 = DS[cc["d"] % len(DS)]
            net2 = Z.build_net(cc["net"], d, callbacks=cbs)
            mods2 = pickle.dumps((net2.module__base_module, classifier_param(net2)))
            want2 = pris[1].call(cc["net"], d, mods2, D2, seed + 1)
            ENGINE.local = (rng_save, rng_load)
            try:
                (got, got2), trace = run_schedule([lambda: seeded_result(net, c, D, seed), lambda: seeded_result(net2, cc["net"], D2, seed + 1)],
                                                  cc["sched"], 6000, out)
            finally:
                ENGINE.local = None
            dd = same(got2, want2)
            if dd:
                out.fail("T03:concurrent", "%s trained while %s was trained in another thread differs from training alone: %s" % (cc["net"]["name"], name, dd))
                out.viol["trace_spec"] = dict(spec, conc=dict(cc, sched=trace))
                return out
        else:
            got = seeded_result(net, c, D, seed)
        out.note("final", digest(got) if not isinstance(got, Raised) else got, (trace or {}).get("switches", [])[:20])
        dd = same(got, want)
        if dd:
            out.fail("T03:concurrent" if cc and not spec["steps"] else "T03:refit",
                     "%s fitted anew after %s differs from a new net around the same modules: %s" % (name, hist, dd))
            if trace:
                out.viol["trace_spec"] = dict(spec, conc=dict(cc, sched=trace))
            return out
        if cb_changed("the last fit"):
            return out
        if spec.get("streams"):
            # two runs of the same training from different random streams must
            # leave the streams different: nobody reset them on the way
            def stream(k):
                outcome(lambda: fit_net(net, c, D, seed + k))
                s = rng_save()
                return [digest(s[0]), digest(s[1][1]), digest(s[2])]
            a, b = forked(lambda: stream(17)), forked(lambda: stream(18))
            for what, x, y in zip(("torch", "numpy", "random"), a, b):
                if x == y:
                    out.fail("T03:reseeds", "%s: training reset the process-wide %s generator: two trainings started from different streams end in the same one" % (name, what))
                    return out
        out.nontrivial = bool(spec["steps"]) or bool(cc) or spec["restore"]
        out.state = digest([c, spec["steps"], trace, spec["restore"], spec["on"], spec["cb"]])
        if spec["restore"] and not isinstance(got, Raised):
            blob = pickle.dumps(net)
            out.hit("fault:process-restart")
            r = pris[2].call(c, blob, D, seed + 5, spec["on"])
            here = observe(net, D)
            if spec["on"]:
                v = outcome(lambda: more_training(net, c, D, seed + 5, 2))
                here["on"] = v if isinstance(v, Raised) else observe(net, D)
            dd = same(r, here)
            if dd:
                out.fail("T03:restore", "%s saved and restored in another process differs from the one that stayed: %s" % (name, dd))
        return out


# ---- T04 --------------------------------------------------------------------
class Watch(Callback):
    """Follows the state a method carries, by its definition, batch by batch."""

    def __init__(self, c):
        self.c = c
        self.bad = None
        self.batches = 0
        self.mem = None
        self.epochs = 0
        self.kid = None
        self.batch_in_epoch = 0
        self.started = 0

    def _get_param_names(self):
        return ["c"]

    def say(self, sig, msg):
        if self.bad is None:
            self.bad = (sig, msg)

    def crit(self, net):
        return net.criterion_.adapt_criterion

    def on_train_begin(self, net, X=None, y=None, **kw):
        self.mem, self.epochs, self.batches, self.X = None, 0, 0, X
        self.started += 1

    def on_epoch_begin(self, net, dataset_train=None, **kw):
        self.epochs += 1
        self.batch_in_epoch = 0
        self.data = dataset_train

    def on_batch_begin(self, net, batch=None, training=None, **kw):
        self.batch_in_epoch += 1
        a = self.crit(net)
        if self.c["name"] == "CAN":
            km = a.target_kmeans
            if self.batch_in_epoch == 1:
                self.kid = None
                self.check_centroids(net, km)
            elif km is not self.km:
                self.say("centroids", "target clusters changed within epoch %d" % self.epochs)
            self.km = km
        if self.c["name"] == "SPA":
            if a.n_epochs != self.epochs:
                self.say("epochs", "epoch %d of this fit is counted as %r" % (self.epochs, a.n_epochs))
            p = self.epochs / net.max_epochs
            for what, got, want in (("adversarial", a._scheduler_adv(), 2.0 / (1.0 + np.exp(-10.0 * p)) - 1.0), ("pseudo-label", a._scheduler_nap(), p)):
                if not np.isclose(got, want):
                    self.say("schedule", "the %s weight in epoch %d of %d is %r instead of %r" % (what, self.epochs, net.max_epochs, got, want))
            self.check_memory(net, "before batch %d" % (self.batches + 1))

    def check_memory(self, net, when):
        a = self.crit(net)
        f, o = a.memory_features, a.memory_outputs
        if self.mem is None:
            nt = int((self.X.sample_domain < 0).sum())
            k, h = self.c["k"], self.c["h"]
            if tuple(o.shape) != (nt, k) or not torch.allclose(o, torch.full((nt, k), 1.0 / k)):
                self.say("memory-start", "the memory of outputs does not start uniform over %d target samples and %d classes" % (nt, k))
            if tuple(f.shape) != (nt, h) or not torch.allclose(f.norm(dim=1), torch.ones(nt), atol=1e-5):
                self.say("memory-start", "the memory of features does not start with unit vectors")
            self.mem = [f.clone(), o.clone()]
            return
        d = same([f, o], self.mem, rtol=1e-5, atol=1e-6)
        if d:
            self.say("memory", "%s of this fit the memory is not the moving average of what was seen: %s" % (when, d))

    def on_batch_end(self, net, batch=None, training=None, **kw):
        if self.c["name"] != "SPA" or not training:
            return
        self.batches += 1
        X, _ = batch
        if self.mem is None:
            return
        t = X["sample_domain"] < 0
        tx = self.X.X[self.X.sample_domain < 0]
        slot = {tx[i].numpy().tobytes(): i for i in range(len(tx))}
        idx = [slot[x.numpy().tobytes()] for x in X["X"][t]]
        mode = net.module_.training
        net.module_.eval()
        with torch.no_grad():
            m = net.module_.base_module_
            feat = m.feat(m.act(m.bn(m.inp(X["X"][t]))))
            p = F.softmax(m.out(torch.tanh(feat)), dim=1) ** 2
            p = p / p.sum(dim=0)
            u = F.normalize(feat, p=2, dim=1)
        net.module_.train(mode)
        new = [self.mem[0].clone(), self.mem[1].clone()]
        mom = 0.5
        for row in range(len(idx)):
            i = idx[row]
            new[0][i] = (1 - mom) * self.mem[0][i] + mom * u[row]
            new[1][i] = (1 - mom) * self.mem[1][i] + mom * p[row]
        self.mem = new

    def on_epoch_end(self, net, **kw):
        if self.c["name"] == "SPA" and self.mem is not None:
            self.check_memory(net, "after epoch %d" % self.epochs)

    def check_centroids(self, net, km):
        ds = self.data
        s, t = ds.sample_domain >= 0, ds.sample_domain < 0
        m = net.module_.base_module_
        mode = net.module_.training
        net.module_.eval()
        with torch.no_grad():
            feat = m.feat(m.act(m.bn(m.inp(ds.X))))
        net.module_.train(mode)
        fs, ys = F.normalize(feat[s], dim=1), ds.y[s]
        want = torch.stack([fs[ys == k].sum(dim=0) for k in range(len(ys.unique()))])
        d = same(km.initial_centroids, want, rtol=1e-4, atol=1e-5)
        if d:
            self.say("centroids", "source class centroids at the start of epoch %d are not those of the current features: %s" % (self.epochs, d))
            return
        ft = F.normalize(feat[t], dim=1)
        cen = km.cluster_centers_
        sim = F.cosine_similarity(ft.unsqueeze(1), cen.unsqueeze(0), dim=2)
        lab = sim.argmax(dim=1)
        new = torch.zeros_like(cen)
        for k in range(len(cen)):
            if (lab == k).any():
                new[k] = ft[lab == k].sum(dim=0)
        srt = sim.sort(dim=1, descending=True)[0]
        clear = bool((srt[:, 0] - srt[:, 1] > 1e-5).all()) if sim.shape[1] > 1 else True
        if clear and torch.isfinite(cen).all() and not torch.allclose(cen, new, atol=2e-3, rtol=1e-3):
            self.say("centroids", "target clusters of epoch %d are no fixed point of spherical k-means on the current target features" % self.epochs)


class T04(DeepProp):
    pid = "T04"
    rule = "a run counts when the carried state was compared over at least two batches; distinct = (method, data, history of fits, faults)"
    lists = ("steps",)
    min_list = 1

    def gen(self, r, tier):
        datas = gen_datas(r, 2)
        c = net_spec(r, datas, ["CAN", "SPA", "SPA"])
        c["epochs"] = r.choice([1, 2, 3, 4])
        c["drop"] = r.choice([0.0, 0.3])
        if c["name"] == "SPA" and r.random() < 0.93:
            for d in datas:
                d["ntgt"] = 1
        steps = []
        for _ in range(r.choice([1, 2, 2, 3])):
            steps.append({"op": r.choice(["fit", "fit", "fit", "partial", "pickle", "clone", "eval"]), "d": r.randrange(2), "seed": r.randrange(1000),
                          "fault": gen_fault(r, 0.4)})
        steps.append({"op": "fit", "d": r.randrange(2), "seed": r.randrange(1000), "fault": None})
        return {"seed": r.randrange(1 << 30), "data": datas, "net": c, "steps": steps}

    def run(self, spec):
        out = Out()
        c, d = spec["net"], spec["data"][0]["d"]
        DS = [Z.deep_data(x) for x in spec["data"]]
        net = Z.build_net(c, d, callbacks=[("watch", Watch(c))])
        out.hit("net:" + c["name"])
        total = 0

        def watch():
            for n, cb in getattr(net, "callbacks_", []):
                if isinstance(cb, Watch):
                    return cb
            return None
        for j, s in enumerate(spec["steps"]):
            D = DS[s["d"] % 2]
            if s["op"] == "pickle":
                net = pickle.loads(pickle.dumps(net))
                out.hit("fault:process-restart")
                out.note(j, "pickle")
                continue
            if s["op"] == "clone":
                net = clone(net)
                out.note(j, "clone")
                continue
            if s["op"] == "fit":
                fn = lambda: fit_net(net, c, D, s["seed"])                    # noqa: E731
            elif s["op"] == "partial":
                fn = lambda: more_training(net, c, D, s["seed"], 1 + s["seed"] % 2)      # noqa: E731
            else:
                fn = lambda: net.predict_proba(D["X"], D["sd"], allow_source=True)       # noqa: E731
            W.seed_globals(s["seed"] + 1)
            v = run_faulted(fn, s["fault"], out, "%d %s" % (j, s["op"])) if s.get("fault") else outcome_all(fn, out)
            w = watch()
            total += w.batches if w else 0
            out.note(j, s["op"], v if isinstance(v, Raised) else "ok", w.batches if w else None, w.epochs if w else None)
            if w and w.bad:
                multi = c["name"] == "SPA" and spec["data"][s["d"] % 2]["ntgt"] > 1 and w.bad[0] == "memory"
                out.fail("T04:%s:%s%s" % (c["name"], w.bad[0], ":several-targets" if multi else ""), "%s, %s %d of %s: %s" % (
                    c["name"], s["op"], j, [x["op"] + ("!" if x.get("fault") else "") for x in spec["steps"]], w.bad[1]))
                return out
        out.nontrivial = total >= 2
        out.hit("batches", total)
        out.state = digest([c, spec["data"], spec["steps"]])
        return out


# ---- T05 --------------------------------------------------------------------
class Rows:
    """Reference model: rows (x, y, domain, weight or None)."""

    def __init__(self, rows=(), w=False, width=2):
        self.rows = list(rows)
        self.w = w and bool(self.rows)

    def of(self, rows, w=None):
        return Rows(rows, self.w if w is None else w)

    def idx(self):
        seen, out = {}, []
        for r in self.rows:
            out.append(seen.get(r[2], 0))
            seen[r[2]] = out[-1] + 1
        return out


def gen_rows(g, n, w):
    return [((g.randrange(80) / 8.0, g.randrange(80) / 8.0), g.choice([-1, 0, 1, 2, 2]), g.choice([0, 1, 2, -3, -4]), (1 + g.randrange(64)) / 8.0 if w else None)
            for _ in range(n)]


def num(x):
    return x.detach().cpu().numpy() if isinstance(x, torch.Tensor) else np.asarray(x)


CONDS = {
    "X": [("X[:,0] > 4", lambda v: v[:, 0] > 4, lambda r: r[0][0] > 4), ("X[:,1] <= 5", lambda v: v[:, 1] <= 5, lambda r: r[0][1] <= 5)],
    "y": [("y >= 1", lambda v: v >= 1, lambda r: r[1] != -1 and r[1] >= 1), ("y < 1", lambda v: v < 1, lambda r: r[1] != -1 and r[1] < 1),
          ("y any", lambda v: v == v, lambda r: r[1] != -1)],
    "sample_domain": [("d >= 0", lambda v: v >= 0, lambda r: r[2] >= 0), ("d == -3", lambda v: v == -3, lambda r: r[2] == -3), ("none", lambda v: v > 99, lambda r: False)],
    "sample_weight": [("w > 4", lambda v: v > 4, lambda r: r[3] > 4)],
}


class T05(DeepProp):
    pid = "T05"
    rule = "a run counts when at least one data set was derived from another; distinct = sequence of operations and their outcomes"
    lists = ("ops",)
    batch = 12

    def gen(self, r, tier):
        ops = [{"op": "new", "seed": r.randrange(1 << 30)}]
        kinds = ["new", "new", "merge", "merge", "merge_in", "merge_in", "add_domain", "weights", "weights", "unweight", "select", "select", "side",
                 "domain", "labels", "split", "item", "item", "copy", "dicts", "bad"]
        for _ in range(r.randrange(2, 11)):
            ops.append({"op": r.choice(kinds), "seed": r.randrange(1 << 30), "c": r.randrange(8), "c2": r.randrange(8),
                        "fault": gen_fault(r, 0.06)})
        return {"ops": ops}

    def make(self, g):
        n = g.choice([0, 1, 1, 2, 3, 5])
        form = g.choice(["arrays", "tensors", "lists", "dict", "dict_lists", "dict_split", "frame", "int_domain", "no_domain", "no_y", "copy", "empty", "kwargs", "tuple"])
        w = g.random() < 0.4 and form not in ("lists",)
        rows = gen_rows(g, n, w)
        X = np.array([r[0] for r in rows], dtype=np.float32).reshape(n, 2)
        y = np.array([r[1] for r in rows], dtype=np.int64)
        sd = np.array([r[2] for r in rows], dtype=np.int64)
        wt = np.array([r[3] for r in rows], dtype=np.float32) if w else None
        if n == 0 or form == "empty":
            k = g.randrange(4)
            return "empty%d" % k, lambda: [DeepDADataset(), DeepDADataset({}), DeepDADataset(None), DeepDADataset([])][k], Rows()
        if form == "arrays":
            return form, lambda: DeepDADataset(X, y, sd, wt), Rows(rows, w)
        if form == "tensors":
            return form, lambda: DeepDADataset(torch.tensor(X), torch.tensor(y), torch.tensor(sd), None if wt is None else torch.tensor(wt)), Rows(rows, w)
        if form == "lists":
            return form, lambda: DeepDADataset(X.tolist(), y.tolist(), sd.tolist()), Rows(rows, w)
        if form == "tuple":
            return form, lambda: DeepDADataset(tuple(map(tuple, X.tolist())), tuple(y.tolist()), tuple(sd.tolist()), None if wt is None else tuple(wt.tolist())), Rows(rows, w)
        full = {"X": X, "y": y, "sample_domain": sd}
        if w:
            full["sample_weight"] = wt
        if form == "dict":
            return form, lambda: DeepDADataset(dict(full)), Rows(rows, w)
        if form == "dict_lists":
            return form, lambda: DeepDADataset({k: v.tolist() for k, v in full.items()}), Rows(rows, w)
        if form == "dict_split":
            return form, lambda: DeepDADataset({"X": X}, y, sd, wt), Rows(rows, w)
        if form == "kwargs":
            return form, lambda: DeepDADataset(X=X, sample_weight=wt, sample_domain=sd, y=y), Rows(rows, w)
        if form == "frame":
            cols = {k: (v.tolist() if k == "X" else v) for k, v in full.items()}
            return form, lambda: DeepDADataset(pd.DataFrame({k: pd.Series(v) for k, v in cols.items()})), Rows(rows, w)
        if form == "int_domain":
            k = g.choice([0, 1, -2, 7])
            return form, lambda: DeepDADataset(X, y, k, wt), Rows([(a, b, k, q) for a, b, _, q in rows], w)
        if form == "no_domain":
            return form, lambda: DeepDADataset(X, y, sample_weight=wt), Rows([(a, b, 0, q) for a, b, _, q in rows], w)
        if form == "no_y":
            return form, lambda: DeepDADataset(X, None, sd, wt), Rows([(a, -1, s, q) for a, _, s, q in rows], w)
        return form, lambda: DeepDADataset(DeepDADataset(X, y, sd, wt)), Rows(rows, w)

    def differs(self, ds, m):
        """None if the real data set equals its model."""
        n = len(m.rows)
        if len(ds) != n:
            return "holds %d rows instead of %d" % (len(ds), n)
        if ds.is_empty() != (n == 0):
            return "is_empty() is %r with %d rows" % (ds.is_empty(), n)
        if tuple(ds.domains()) != tuple(sorted({r[2] for r in m.rows})):
            return "domains() gives %r for %r" % (ds.domains(), sorted({r[2] for r in m.rows}))
        d = ds.as_dict()
        if bool(ds.has_weights) != m.w or ("sample_weight" in d) != m.w:
            return "has_weights is %r, %s weights expected" % (ds.has_weights, "no" if not m.w else "")
        a = ds.as_arrays()
        if len(a) != (4 if m.w else 3):
            return "as_arrays gives %d arrays" % len(a)
        cols = {"X": np.array([r[0] for r in m.rows]).reshape(n, 2) if n else np.zeros(0), "y": np.array([r[1] for r in m.rows]),
                "sample_domain": np.array([r[2] for r in m.rows]), "sample_idx": np.array(m.idx())}
        if m.w:
            cols["sample_weight"] = np.array([r[3] for r in m.rows])
        for k, v in cols.items():
            got = num(d[k]).astype(float)
            if n == 0:
                if got.size:
                    return "%s is not empty" % k
                continue
            if got.shape != v.shape or not np.array_equal(got, v.astype(float)):
                return "%s is %s instead of %s" % (k, got.tolist(), v.tolist())
        for got, k in zip(a, ("X", "y", "sample_domain", "sample_weight")):
            if n and not np.array_equal(num(got).astype(float), cols[k].astype(float)):
                return "as_arrays: %s is %s instead of %s" % (k, num(got).tolist(), cols[k].tolist())
        for i in range(min(n, 3)):
            j = (i * 7 + 3) % n
            X, y = ds[j]
            r = m.rows[j]
            if tuple(num(X["X"]).astype(float)) != r[0] or int(y) != r[1] or int(X["sample_domain"]) != r[2] or int(X["sample_idx"]) != cols["sample_idx"][j] \
                    or (("sample_weight" in X) != m.w) or (m.w and float(X["sample_weight"]) != r[3]):
                return "item %d is %s, %s instead of %s" % (j, {k: num(v).tolist() for k, v in X.items()}, y, r)
        return None

    def run(self, spec):
        out = Out()
        sets, models = [], []
        derived = False

        def keep(ds, m):
            if len(sets) < 8:
                sets.append(ds)
                models.append(m)
            else:
                sets[len(out.log) % 8], models[len(out.log) % 8] = ds, m
        for j, o in enumerate(spec["ops"]):
            g = rng("t05", o["seed"])
            k = o["op"]
            if k != "new" and not sets:
                continue
            a = o.get("c", 0) % max(1, len(sets))
            ds, m = (sets[a], models[a]) if sets else (None, None)
            want, fails, inplace, label = None, False, False, k
            if k == "new":
                form, fn, want = self.make(g)
                label = "new " + form
            elif k in ("merge", "merge_in"):
                b = o["c2"] % len(sets)
                keepw = g.random() < 0.5
                om = models[b]
                w = keepw and (m.w or om.w)
                if w and any(x.rows and not x.w for x in (m, om)):
                    fails = True
                want = Rows([x if w else x[:3] + (None,) for x in m.rows + om.rows], w)
                other = sets[b]
                inplace = k == "merge_in"
                kw = {} if not keepw and g.random() < 0.5 else {"keep_weights": keepw}
                fn = (lambda: ds.merge(other, out=False, **kw)) if inplace else (lambda: ds.merge(other, **kw))
                label = "%s %d with %d keep=%s" % (k, a, b, keepw)
            elif k == "add_domain":
                rows = gen_rows(g, 1 + g.randrange(3), False)
                dom = g.choice([5, -6])
                rows = [(x, y, dom, None) for x, y, _, _ in rows]
                X = np.array([r[0] for r in rows], dtype=np.float32)
                y = np.array([r[1] for r in rows])
                sd = np.array([r[2] for r in rows])
                arg = g.choice([(X, y, sd), {"X": X, "y": y, "sample_domain": sd}, DeepDADataset(X, y, sd), [X, y, sd], (X, y, dom)])
                fn = lambda: ds.add_domain(arg)                               # noqa: E731
                want = Rows([x[:3] + (None,) for x in m.rows] + rows, False)
            elif k == "weights":
                n = len(m.rows) + g.choice([0, 0, 0, 1, -1])
                n = max(0, n)
                wt = [(1 + g.randrange(64)) / 8.0 for _ in range(n)]
                arg = g.choice([wt, np.array(wt, dtype=np.float32), np.array(wt), torch.tensor(wt)])
                inplace = True
                fn = lambda: ds.add_weights(arg)                              # noqa: E731
                if n == len(m.rows):
                    want = Rows([x[:3] + (q,) for x, q in zip(m.rows, wt)], True)
                elif n == 0:
                    want = Rows([x[:3] + (None,) for x in m.rows], False)
                else:
                    fails = True
            elif k == "unweight":
                inplace = True
                fn = lambda: ds.remove_weights()                              # noqa: E731
                want = Rows([x[:3] + (None,) for x in m.rows], False)
            elif k == "select":
                on = g.choice(sorted(CONDS))
                text, cond, ref = g.choice(CONDS[on])
                rw = g.choice([True, True, False])
                if on == "sample_weight" and not m.w:
                    fails = True
                elif on == "X" and not m.rows:
                    continue
                else:
                    w = m.w and rw
                    want = Rows([x if w else x[:3] + (None,) for x in m.rows if ref(x)], w)
                kw = {} if rw and g.random() < 0.5 else {"return_weights": rw}
                fn = lambda: ds.select(cond, on, **kw)                        # noqa: E731
                label = "select %s" % text
            elif k in ("side", "domain", "labels"):
                rw = g.choice([True, True, False])
                w = m.w and rw
                kw = {} if rw and g.random() < 0.5 else {"return_weights": rw}
                if k == "side":
                    s = g.choice(["source", "target"])
                    fn = lambda: getattr(ds, "select_" + s)(**kw)             # noqa: E731
                    sel = [x for x in m.rows if (x[2] >= 0) == (s == "source")]
                elif k == "domain":
                    dom = g.choice([0, 1, 2, -3, -4, 5])
                    fn = lambda: ds.select_domain(dom, **kw)                  # noqa: E731
                    sel = [x for x in m.rows if x[2] == dom]
                else:
                    fn = lambda: ds.select_with_labels(**kw)                  # noqa: E731
                    sel = [x for x in m.rows if x[1] != -1]
                want = Rows([x if w else x[:3] + (None,) for x in sel], w)
            elif k == "split":
                fn = lambda: ds.per_domain_split()                            # noqa: E731
            elif k == "item":
                n = len(m.rows)
                if not n:
                    continue
                kind = g.choice(["slice", "list", "tensor", "mask", "out"])
                if kind == "slice":
                    q = sorted([g.randrange(n + 1), g.randrange(n + 1)])
                    ix, sel = slice(*q), list(range(n))[q[0]:q[1]]
                elif kind in ("list", "tensor"):
                    sel = [g.randrange(n) for _ in range(1 + g.randrange(4))]
                    ix = torch.tensor(sel) if kind == "tensor" else list(sel)
                elif kind == "mask":
                    bits = [g.random() < 0.5 for _ in range(n)]
                    ix, sel = torch.tensor(bits), [i for i in range(n) if bits[i]]
                else:
                    ix, sel = n + g.randrange(3), None
                    fails = True
                fn = lambda: ds[ix]                                           # noqa: E731
                label = "item %s" % kind
            elif k == "copy":
                how = g.choice(["pickle", "deepcopy", "ctor", "restart"])
                if how == "pickle":
                    fn = lambda: pickle.loads(pickle.dumps(ds))               # noqa: E731
                elif how == "deepcopy":
                    fn = lambda: copy.deepcopy(ds)                            # noqa: E731
                elif how == "ctor":
                    fn = lambda: DeepDADataset(ds)                            # noqa: E731
                else:
                    fn = lambda: pickle.loads(forked(lambda: pickle.dumps(pickle.loads(pickle.dumps(ds)))))       # noqa: E731
                    out.hit("fault:process-restart")
                want = Rows(m.rows, m.w)
            elif k == "dicts":
                how = g.choice(["dict", "arrays"])
                if not m.rows:
                    continue
                fn = (lambda: DeepDADataset(ds.as_dict(sample_indices=g.random() < 0.5))) if how == "dict" else (lambda: DeepDADataset(*ds.as_arrays()))
                want = Rows(m.rows, m.w)
            else:
                fails = True
                n = len(m.rows)
                fn, label = g.choice([
                    (lambda: ds.merge([1, 2]), "merge a list"),
                    (lambda: ds.merge(None, out=False), "merge None"),
                    (lambda: ds.select(lambda v: v > 0, "nothing"), "select on nothing"),
                    (lambda: ds.add_weights(np.ones(n + 2)), "too many weights"),
                    (lambda: ds.add_weights(np.ones((n + 1, 2))), "two-dimensional weights"),
                    (lambda: ds.merge(DeepDADataset(np.ones((2, 5), np.float32), [0, 1], [1, 1]), out=False) if n else ds.merge(3), "merge other width"),
                    (lambda: ds.add_domain({"y": [1]}), "domain without X"),
                    (lambda: ds.add_domain(([[1.0, 2.0]], [1, 2], [1])), "domain with too many labels"),
                    (lambda: DeepDADataset([[1.0, 2.0]], [1], [1, 1]), "too many domains"),
                    (lambda: DeepDADataset([[1.0, 2.0]], [1], [1], [0.5, 0.5]), "too many weights given"),
                    (lambda: DeepDADataset("text"), "text"),
                ])
            fault = o.get("fault")
            if fault and not inplace:
                v = run_faulted(fn, fault, out, label)
                if isinstance(v, Raised) and not fails:
                    out.note(j, label, "interrupted")
                    fault = "hit"
            else:
                v = outcome_all(fn, out)
            out.hit("op:" + k)
            out.note(j, label, v if isinstance(v, Raised) else "ok")
            if fault != "hit":
                if fails and not isinstance(v, Raised):
                    out.fail("T05:accepted", "%s should have failed on a data set of %d rows" % (label, len(m.rows)))
                    return out
                if not fails and isinstance(v, Raised):
                    out.fail("T05:raised", "%s raised %r on a data set of %s rows" % (label, v, len(m.rows) if m else 0))
                    return out
                if fails:
                    out.hit("fault:failing-call")
                elif k == "split":
                    if sorted(v) != sorted({r[2] for r in m.rows}):
                        out.fail("T05:split", "per_domain_split gives domains %s" % sorted(v))
                        return out
                    for dom in v:
                        d = self.differs(v[dom], Rows([x for x in m.rows if x[2] == dom], m.w))
                        if d:
                            out.fail("T05:split", "per_domain_split, domain %d: %s" % (dom, d))
                            return out
                elif k == "item":
                    X, y = v
                    idx = m.idx()
                    exp = {"X": [m.rows[i][0] for i in sel], "sample_domain": [m.rows[i][2] for i in sel], "sample_idx": [idx[i] for i in sel]}
                    if m.w:
                        exp["sample_weight"] = [m.rows[i][3] for i in sel]
                    if sorted(X) != sorted(exp):
                        out.fail("T05:item", "%s has keys %s" % (label, sorted(X)))
                        return out
                    for q, e in list(exp.items()) + [("y", [m.rows[i][1] for i in sel])]:
                        got = num(y if q == "y" else X[q]).astype(float)
                        if got.size != np.array(e).size or not np.array_equal(got.ravel(), np.array(e, dtype=float).ravel()):
                            out.fail("T05:item", "%s: %s is %s instead of %s" % (label, q, got.tolist(), e))
                            return out
                elif inplace:
                    if k in ("weights", "unweight") and v is not ds:
                        out.fail("T05:return", "%s did not return the data set" % label)
                        return out
                    models[a] = want
                else:
                    keep(v, want)
                    derived = derived or k != "new"
            for i, (s, mm) in enumerate(zip(sets, models)):
                d = outcome(lambda: self.differs(s, mm))
                if d:
                    out.fail("T05:%s" % ("failed-call" if fails else k), "after %s%s data set %d no longer equals its rows: %s" % (
                        label, " (which failed)" if fails else "", i, d))
                    return out
        out.nontrivial = derived
        return out
