"""T06: in deep training every sample counts with its own weight, on its own side."""
import pickle

import numpy as np
import pandas
import skorch.dataset
import torch

from props import deepzoo as Z
from props.common import Pristine, gen_fault, outcome_all, run_faulted
from props.deep import DeepProp, carried, classifier_param, gen_datas, labels, losses, net_spec, tensors
from sim import world as W
from sim.canon import Raised, digest, outcome, same
from sim.runner import Out, forked, subseed
from skada.deep.base import DeepDADataset

LABELLED_ADAPT = ("CAN", "DeepJDOT")      # their adaptation term reads the source labels
NO_REG = ("DeepJDOT", "SPA")
RELS = ["unit", "names", "names", "names-w", "names-w", "zero", "other-side", "other-side", "class"]


def rel_ok(rel, name):
    if rel == "zero":
        return name not in LABELLED_ADAPT
    if rel == "class":
        return name not in NO_REG
    return True


def base_of(c, rel, cw=None):
    extra = {"criterion__reduction": "none"}
    if rel == "class":
        extra["base_criterion"] = torch.nn.CrossEntropyLoss(weight=None if cw is None else torch.tensor(cw), reduction="none")
    return extra


def net_for(c, d, rel, cw=None, mod=None):
    return Z.build_net(dict(c, reg=0.0) if rel == "class" and c["name"] not in ("SourceOnly", "TargetOnly") else c, d, mod=mod,
                       extra=base_of(c, rel, cw))


def put(form, X, y, sd, w):
    """The arguments of fit, in one of the forms it accepts."""
    if form == "dict":
        a = {"X": X, "sample_domain": sd}
        if w is not None:
            a["sample_weight"] = w
        return (a, y), {}
    if form == "dataset":
        return (DeepDADataset(X, y, sd, w), None), {}
    if form == "merged":
        k = len(y) // 3
        one, two = [DeepDADataset(X[a:b], y[a:b], sd[a:b], None if w is None else w[a:b]) for a, b in ((0, k), (k, len(y)))]
        return (one.merge(two, keep_weights=True), None), {}
    if form == "generic":
        a = {"X": X, "sample_domain": sd}
        if w is not None:
            a["sample_weight"] = w
        return (skorch.dataset.Dataset(a, y), None), {}
    if form == "frame":
        # (a column of weights would be of double precision, and the loss with it)
        return (pandas.DataFrame({"X": list(X), "y": y, "sample_domain": sd}), None), ({} if w is None else {"sample_weight": w})
    if form == "tensor":
        X, y, sd, w = torch.tensor(X), torch.tensor(y), torch.tensor(sd), None if w is None else torch.tensor(w)
    if form == "list":
        sd = [int(v) for v in sd]
    kw = {"sample_domain": sd}
    if w is not None:
        kw["sample_weight"] = w
    return (X, y), kw


def train(net, form, v, seed):
    a, kw = put(form, *v)
    W.seed_globals(seed)
    return net.fit(*a, **kw)


def look(net, form, v, seed):
    r = outcome(lambda: train(net, form, v, seed))
    if isinstance(r, Raised):
        return r
    X, _, sd, _ = v
    o = {"losses": losses(net), "params": tensors(net.module_.state_dict()), "carried": carried(net)}
    o["proba"] = outcome(lambda: net.predict_proba(X, sd, allow_source=True))
    o["target"] = outcome(lambda: net.predict(X, sd))
    return o


def fresh_look(c, d, rel, cw, mods, form, v, seed):
    m, dc = pickle.loads(mods)
    net = net_for(c, d, rel, cw, mod=m)
    if dc is not None:
        net.set_params(module__domain_classifier=dc)
    return look(net, form, v, seed)


def renamed(sd, names):
    out = np.array(sd).copy()
    for a, b in zip(sorted(set(int(v) for v in sd if v >= 0)), names["src"]):
        out[sd == a] = b
    for a, b in zip(sorted(set(int(v) for v in sd if v < 0)), names["tgt"]):
        out[sd == a] = b
    return out


class T06(DeepProp):
    pid = "T06"
    rule = "a run counts when the compared trainings both completed; distinct = (method, relation, history, faults, form)"
    lists = ("steps",)

    def gen(self, r, tier):
        datas = gen_datas(r, 2)
        c = net_spec(r, datas)
        rel = r.choice([x for x in RELS if rel_ok(x, c["name"])])
        steps = []
        for _ in range(r.choice([0, 1, 1, 2])):
            steps.append({"op": r.choice(["fit", "fit", "score"]), "d": r.randrange(2), "w": r.random() < 0.6, "form": r.choice(["array", "dict", "dataset", "generic", "frame"]),
                          "seed": r.randrange(1000), "fault": gen_fault(r, 0.5), "zero": r.random() < 0.3})
        return {"seed": r.randrange(1 << 30), "data": datas, "net": c, "rel": rel, "steps": steps, "swap": r.random() < 0.5,
                "form": [r.choice(["array", "array", "dict", "dataset", "tensor", "list", "merged", "generic", "frame"]) for _ in range(2)],
                "names": [{"src": r.sample(range(0, 7), 4) if r.random() < 0.5 else [0] + r.sample(range(1, 9), 3),
                           "tgt": [-v for v in r.sample(range(1, 12), 4)]} for _ in range(2)],
                "cw": [r.choice([0.25, 0.5, 1.0, 2.0, 3.0]) for _ in range(4)], "p0": r.choice([0.2, 0.5, 0.8]),
                "keep": r.random() < 0.4}

    def shrink(self, spec):
        yield from super().shrink(spec)
        for k, v in (("swap", False), ("form", ["array", "array"]), ("keep", True)):
            if spec[k] != v:
                yield dict(spec, **{k: v})

    def pair(self, spec, c, D):
        """Two sets of arguments the method must not tell apart, and what it depends on."""
        g = np.random.RandomState(spec["seed"] % (1 << 31))
        rel, y = spec["rel"], labels(c, D).copy()
        sd, n = D["sd"], len(D["sd"])
        if spec["names"][0] and not spec["keep"] and rel != "names" and rel != "names-w":
            sd = renamed(sd, spec["names"][0])
        w = D["w"].copy()
        if rel == "unit":
            return (D["X"], y, sd, np.ones(n, np.float32)), (D["X"], y, sd, None), None
        if rel in ("names", "names-w"):
            w = w if rel == "names-w" else None
            return (D["X"], y, D["sd"] if spec["keep"] else renamed(D["sd"], spec["names"][1]), w), (D["X"], y, renamed(D["sd"], spec["names"][0]), w), None
        side = sd < 0 if c["name"] == "TargetOnly" else sd >= 0
        if rel == "zero":
            z = side & (g.rand(n) < spec["p0"])
            keep = np.flatnonzero(side)[0]
            z[keep] = False
            w[z] = 0.0
            y2 = y.copy()
            k = int(c["k"])
            y2[z] = (y2[z] + 1 + g.randint(0, k - 1, size=int(z.sum()))) % k
            return (D["X"], y, sd, w), (D["X"], y2, sd, w), None
        if rel == "other-side":
            w2 = w.copy()
            w2[~side] = (g.rand(int((~side).sum())) * 5).astype(np.float32)
            return (D["X"], y, sd, w), (D["X"], y, sd, w2), None
        cw = np.array(spec["cw"][: c["k"]], np.float32)
        wc = np.ones(n, np.float32)
        wc[side] = cw[y[side]]
        return (D["X"], y, sd, wc), (D["X"], y, sd, None), cw

    def run(self, spec):
        out = Out()
        p = Pristine(fresh_look)
        try:
            return self._run(spec, out, p)
        finally:
            p.close()

    def _run(self, spec, out, p):
        c, d, rel = spec["net"], spec["data"][0]["d"], spec["rel"]
        DS = [Z.deep_data(x) for x in spec["data"]]
        D = DS[0]
        name = c["name"]
        out.hit("net:" + name)
        out.hit("relation:" + rel)
        A, B, cw = self.pair(spec, c, D)
        cwa, cwb = None, None if cw is None else [float(v) for v in cw]
        if spec["swap"]:
            A, B, cwa, cwb = B, A, cwb, cwa
        net = net_for(c, d, rel, cwa)
        for j, s in enumerate(spec["steps"]):
            E = DS[s["d"] % len(DS)]
            w = E["w"] if s["w"] else None
            if w is not None and s["zero"]:
                w = w * (np.arange(len(w)) % 2)
            if s["op"] == "score":
                fn = lambda: net.score(E["X"], E["y_true"], E["sd"], w, allow_source=True)        # noqa: E731
            else:
                fn = lambda: train(net, s["form"], (E["X"], labels(c, E), E["sd"], w), s["seed"])  # noqa: E731
            v = run_faulted(fn, s["fault"], out, "%d %s" % (j, s["op"])) if s.get("fault") else outcome_all(fn, out)
            out.hit("step:" + s["op"])
            out.note(j, s["op"], "weighted" if w is not None else "", v if isinstance(v, Raised) else "ok")
        mods = pickle.dumps((net.module__base_module, classifier_param(net)))
        seed = subseed(spec["seed"], "final")
        want = p.call(c, d, rel, cwb, mods, spec["form"][1], B, seed)
        got = look(net, spec["form"][0], A, seed)
        out.note("final", rel, got if isinstance(got, Raised) else digest(got), want if isinstance(want, Raised) else digest(want))
        dd = same(got, want, rtol=2e-3, atol=2e-4) if rel == "class" else same(got, want)
        say = {"unit": "weights that are all 1 train differently from no weights", "names": "two namings of the same domains train differently",
               "names-w": "two namings of the same domains train differently (with sample weights)",
               "zero": "the labels of samples with weight 0 change the training",
               "other-side": "the weights of samples whose labels are not trained on change the training",
               "class": "weights that depend on the class only train differently from the same class weights in the loss"}[rel]
        if dd:
            out.fail("T06:" + rel, "%s (%s and %s): %s: %s" % (name, spec["form"][0], spec["form"][1], say, dd))
            return out
        out.state = digest([c, rel, spec["steps"], spec["form"], spec["names"], spec["swap"]])
        if isinstance(got, Raised):
            out.hit("fit raised")
            return out
        if not all(isinstance(v, float) and np.isfinite(v) for v in got["losses"]):
            # the other side of the comparison is not finite either: a naming,
            # or a weighting, that trains must not be compared with one that does not
            D0 = (D["X"], labels(c, D), D["sd"], None)
            plain = forked(lambda: fresh_look(c, d, "unit", None, mods, "array", D0, seed))
            if not isinstance(plain, Raised) and all(isinstance(v, float) and np.isfinite(v) for v in plain["losses"]):
                out.fail("T06:lost", "%s: the loss is not a number (%s) where it is one without weights (%s)" % (name, got["losses"], plain["losses"]))
                return out
        out.nontrivial = True
        # scoring counts every sample with its own weight
        for what, m in (("all samples", np.ones(len(D["sd"]), bool)), ("target samples", D["sd"] < 0)):
            v = outcome(lambda: net.score(D["X"][m], D["y_true"][m], D["sd"][m], D["w"][m], allow_source=True))
            q = outcome(lambda: net.predict(D["X"][m], D["sd"][m], allow_source=True))
            if isinstance(q, Raised):
                continue
            if isinstance(v, Raised) or abs(float(v) - float(np.average(q == D["y_true"][m], weights=D["w"][m].astype(float)))) > 1e-6:
                out.fail("T06:score", "%s: the weighted score of %s is %r, that of its predictions %r" % (
                    name, what, v, float(np.average(q == D["y_true"][m], weights=D["w"][m].astype(float)))))
                return out
        return out
