"""The deep methods as JSON-described objects (imported only where torch is needed)."""
import numpy as np
import torch
from torch import nn

from skada.deep import (CAN, CDAN, DAN, DANN, MCC, MDD, SPA, DeepCoral, DeepJDOT, SourceOnly, TargetOnly)
from skada.deep.base import (DeepDADataset, DomainAwareNet, DomainBalancedDataLoader, DomainOnlyDataLoader)

from skada.deep.modules import GradientReversalLayer

from sim import world as W
from sim.engine import ENGINE


class Mod(nn.Module):
    """A small user model: hidden layer `feat`, optional batch norm and dropout."""

    def __init__(self, d=2, k=2, h=5, bn=False, drop=0.0):
        super().__init__()
        self.inp = nn.Linear(d, 6)
        self.bn = nn.BatchNorm1d(6) if bn else nn.Identity()
        self.act = nn.ReLU()
        self.feat = nn.Linear(6, h)
        self.drop = nn.Dropout(drop)
        self.out = nn.Linear(h, k)

    def forward(self, X, sample_weight=None):
        return self.out(self.drop(torch.tanh(self.feat(self.act(self.bn(self.inp(X)))))))


class Critic(nn.Module):
    """A user's domain classifier, one that passes gradients on."""

    def __init__(self, n):
        super().__init__()
        self.lin = nn.Linear(n, 1)

    def forward(self, x, sample_weight=None):
        return torch.sigmoid(self.lin(GradientReversalLayer.apply(x, 1.0))).flatten()


def critic(c, n, kw):
    """Arguments of an adversarial net that uses the user's classifier."""
    return dict(kw, domain_classifier=Critic(n)) if c.get("critic") else kw


METHODS = {
    "DeepCoral": (lambda m, c, kw: DeepCoral(m, layer_name="feat", reg=c.get("reg", 1.0), **kw)),
    "DAN": (lambda m, c, kw: DAN(m, layer_name="feat", reg=c.get("reg", 1.0), **kw)),
    "CAN": (lambda m, c, kw: CAN(m, layer_name="feat", reg=c.get("reg", 0.1), class_threshold=1, **kw)),
    "DeepJDOT": (lambda m, c, kw: DeepJDOT(m, layer_name="feat", reg_dist=0.5, reg_cl=0.3, **kw)),
    "MCC": (lambda m, c, kw: MCC(m, layer_name="feat", reg=c.get("reg", 1.0), **kw)),
    "DANN": (lambda m, c, kw: DANN(m, layer_name="feat", reg=c.get("reg", 1.0), num_features=c["h"], **critic(c, c["h"], kw))),
    "CDAN": (lambda m, c, kw: CDAN(m, layer_name="feat", reg=c.get("reg", 1.0), num_features=c["h"], n_classes=c["k"],
                                   max_features=c.get("maxf", 4096),
                                   **dict(critic(c, min(c["h"] * c["k"], c.get("maxf", 4096)), kw),
                                          **({"module__random_state": c["rs"]} if "rs" in c else {})))),
    "MDD": (lambda m, c, kw: MDD(m, layer_name="feat", reg=c.get("reg", 0.1), num_features=c["h"], n_classes=c["k"], **kw)),
    "SPA": (lambda m, c, kw: SPA(m, layer_name="feat", num_features=c["h"], **kw)),
    "SourceOnly": (lambda m, c, kw: SourceOnly(m, layer_name="feat", **kw)),
    "TargetOnly": (lambda m, c, kw: TargetOnly(m, layer_name="feat", **kw)),
}


def gen_net(r, names=None):
    name = r.choice(sorted(names or METHODS) + (["CDAN", "CDAN"] if not names else []))
    c = {"name": name, "k": r.choice([2, 2, 3]), "h": r.choice([3, 5]), "bn": r.random() < 0.4, "drop": r.choice([0.0, 0.0, 0.3]),
         "epochs": r.choice([1, 2, 3]), "batch": r.choice([4, 5, 8]), "lr": r.choice([0.05, 0.2]), "mseed": r.randrange(1000)}
    if name == "CDAN" and r.random() < 0.7:
        c["maxf"] = 4
        if r.random() < 0.9:
            c["rs"] = r.randrange(3)
    if name in ("DANN", "CDAN") and r.random() < 0.7:
        c["critic"] = True
    if r.random() < 0.3:
        c["opt"] = "adam"
    return c


def module(c, d):
    torch.manual_seed(c["mseed"])
    return Mod(d, c["k"], c["h"], c["bn"], c["drop"])


def build_net(c, d, callbacks=None, mod=None, extra=None):
    m = module(c, d) if mod is None else mod
    torch.manual_seed(c["mseed"] + 1)
    kw = dict(batch_size=c["batch"], max_epochs=c["epochs"], lr=c["lr"], train_split=None, verbose=0,
              optimizer=torch.optim.Adam if c.get("opt") == "adam" else torch.optim.SGD)
    if callbacks is not None:
        kw["callbacks"] = callbacks
    if extra:
        kw.update(extra)
    return METHODS[c["name"]](m, c, kw)


def deep_data(spec):
    D = W.make_data(spec)
    return {"X": D["X"].astype(np.float32), "y": D["y"].astype(np.int64), "sd": D["sd"], "y_true": D["y_true"].astype(np.int64),
            "w": D["w"].astype(np.float32)}


def scoring_net(d, seed, weighted=False):
    c = {"name": "DeepCoral", "k": 2, "h": 4, "bn": False, "drop": 0.0, "epochs": 2, "batch": 6, "lr": 0.1, "mseed": int(seed)}
    if seed % 2:
        c.update(bn=True, drop=0.3)
    return build_net(c, d, extra={"criterion__reduction": "none"} if weighted else None)


def warm():
    D = deep_data({"seed": 1, "task": "bin", "d": 2, "ns": 12, "nt": 12, "nsrc": 1, "ntgt": 1, "layout": "block", "order": "C", "scale": 1.0})
    for name in METHODS:
        c = {"name": name, "k": 2, "h": 3, "bn": False, "drop": 0.0, "epochs": 1, "batch": 4, "lr": 0.1, "mseed": 0}
        try:
            n = build_net(c, 2)
            n.fit(D["X"], D["y"], sample_domain=D["sd"])
            n.predict_proba(D["X"], D["sd"], allow_source=True)
        except Exception as e:                           # noqa: BLE001
            import sys
            sys.stderr.write("warm %s: %r\n" % (name, e))
