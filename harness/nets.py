"""Random small integer networks: case records for the specification and the
torch models that mirror them (module Net.tla)."""

import itertools
import math
from typing import NamedTuple

import torch
from torch import nn


class Square(nn.Module):
    def forward(self, x):
        return x**2


class Cube(nn.Module):
    def forward(self, x):
        return x**3


class Gain(nn.Module):
    def __init__(self):
        super().__init__()
        self.a = nn.Parameter(torch.zeros(()))

    def forward(self, x):
        return self.a * x


class Shift(nn.Module):
    def __init__(self, shape):
        super().__init__()
        self.s = nn.Parameter(torch.zeros(shape))

    def forward(self, x):
        return x + self.s


class Cum(nn.Module):
    """Running sums over positions of a (T, C) tensor."""

    def forward(self, x):
        return x.cumsum(-2)


class SumT(nn.Module):
    def forward(self, x):
        return x.sum(-2)


class Tr(nn.Module):
    """(..., T, C) with T positions split into dims -> (C, dims)."""

    def forward(self, x):
        return x.movedim(-1, 1)


class Gate(nn.Module):
    def forward(self, x):
        a, b = x.chunk(2, dim=-1)
        return a * b


class Ln2(nn.Module):
    def forward(self, x):
        return x * math.log(2.0)


class Flat(nn.Module):
    def forward(self, x):
        return x.flatten(1)


class Named(NamedTuple):
    """Two or more outputs with names."""

    first: torch.Tensor
    second: torch.Tensor
    third: torch.Tensor = None


def entries(x, y, size, pos):
    """``size`` tensors, the one at ``pos`` is ``y``."""
    items = [x.sum() * (k + 1) for k in range(size)]
    items[pos] = y
    return items


class PairOut(nn.Module):
    """Returns several outputs of which one is the wrapped layer's output."""

    def __init__(self, inner, size=2, pos=1, kind="tuple"):
        super().__init__()
        self.inner = inner
        self.size, self.pos, self.kind = size, pos, kind

    def forward(self, x):
        items = entries(x, self.inner(x), self.size, self.pos)
        return {"tuple": tuple, "list": list, "named": lambda i: Named(*i)}[self.kind](items)


class PairIn(nn.Module):
    """Applies the wrapped layer to one of several arguments."""

    def __init__(self, inner, size=2, pos=1, kind="tuple"):
        super().__init__()
        self.inner = inner
        self.size, self.pos = size, pos

    def forward(self, *args):
        assert len(args) == self.size
        return self.inner(args[self.pos])


class Mirror(nn.Module):
    """Runs the layers of a case; submodules live in nested containers."""

    def __init__(self, case, nested=False, inplace=False, pair=None):
        super().__init__()
        self.case_layers = case["layers"]
        self.merge = case.get("loss") if case.get("merge") else None
        # layer -> ("out" or "in", number of entries, position, kind)
        self.pair = {n: (p, 2, 1, "tuple") if isinstance(p, str) else p for n, p in (pair or {}).items()}
        mods = []
        for n, ly in enumerate(case["layers"]):
            k = ly["k"]
            if k == "lin":
                m = nn.Linear(ly["i"], ly["o"], bias=bool(ly["b"]))
            elif k == "conv":
                m = nn.Conv2d(
                    ly["ci"], ly["co"], (ly["kh"], ly["kw"]), stride=(ly["sh"], ly["sw"]),
                    padding=ly.get("strpad") or (ly["ph"], ly["pw"]),
                    dilation=(ly["dh"], ly["dw"]),
                    groups=ly["g"], bias=bool(ly["b"]), padding_mode=ly["mode"],
                )
            elif k == "shift":
                m = Shift(ly["shape"])
            elif k == "relu":
                m = nn.ReLU(inplace=inplace)
            else:
                m = {
                    "sq": Square, "cube": Cube, "gain": Gain, "cum": Cum,
                    "sumT": SumT, "tr": Tr, "gate": Gate, "res": nn.Identity, "flat": Flat,
                }[k]()
            if n in self.pair:
                m = {"out": PairOut, "in": PairIn}[self.pair[n][0]](m, *self.pair[n][1:])
            mods.append(m)
        if nested:
            self.body = nn.ModuleDict()
            self.index = []
            for n, m in enumerate(mods):
                if nested == "flat" and n < 2:  # the last component of other layers' names
                    self.add_module(f"m{n}", m)
                    self.index.append(f"m{n}")
                    continue
                grp = "block" + "1" * (n // 2)  # names are prefixes of others; equal last components
                if grp not in self.body:
                    self.body[grp] = nn.ModuleDict()
                self.body[grp][f"m{n % 2}"] = m
                self.index.append(f"body.{grp}.m{n % 2}")
        else:
            self.mods = nn.ModuleList(mods)
            self.index = [f"mods.{n}" for n in range(len(mods))]
        self.final = Ln2() if case["loss"] != "mse" else nn.Identity()

    def layer(self, n):
        return self.get_submodule(self.index[n])

    def replace(self, n, module):
        """Put another module in the place of a layer."""
        path, _, key = self.index[n].rpartition(".")
        setattr(self.get_submodule(path), key, module)

    def forward(self, x):
        if not isinstance(x, torch.Tensor):
            x = x["x"]
        acts = [x]
        for n, ly in enumerate(self.case_layers):
            how, size, pos, _ = self.pair.get(n, ("", 0, 0, ""))
            if how == "out":
                y = self.layer(n)(acts[-1])
                assert len(y) == size and not (isinstance(y, list) and self.pair[n][3] != "list")
                y = getattr(y, Named._fields[pos]) if self.pair[n][3] == "named" else y[pos]
            elif how == "in":
                y = self.layer(n)(*entries(acts[-1].detach(), acts[-1], size, pos))
            else:
                y = self.layer(n)(acts[-1])
            if ly["k"] == "res":
                y = y + acts[ly["from"]]
            acts.append(y)
        out = self.final(acts[-1])
        if self.merge == "ce":  # one row per loss term
            return out.movedim(1, -1).flatten(0, -2)
        return out.flatten(0, -2) if self.merge else out

    def case_params(self):
        """Parameters in the order of the case's ``params``."""
        out = {}
        for n, ly in enumerate(self.case_layers):
            m = self.layer(n)
            if n in self.pair:
                m = m.inner
            if ly["k"] == "lin":
                out[ly["w"]] = m.weight
                if ly["b"]:
                    out[ly["b"]] = m.bias
            elif ly["k"] == "conv":
                out[ly["wt"]] = m.weight
                if ly["b"]:
                    out[ly["b"]] = m.bias
            elif ly["k"] == "gain":
                out[ly["w"]] = m.a
            elif ly["k"] == "shift":
                out[ly["w"]] = m.s
        return [out[k + 1] for k in range(len(out))]


def nested(rng):
    """How the layers are distributed over submodules."""
    return rng.choice([False, False, True, "flat"])


def build_model(case, dtype=torch.float64, nested=False, inplace=False, pair=None):
    torch.manual_seed(0)
    if any(ly["k"] == "res" for ly in case["layers"]):
        inplace = False  # activations are used again
    model = Mirror(case, nested=nested, inplace=inplace, pair=pair).to(dtype)
    for p, vals in zip(model.case_params(), case["params"]):
        with torch.no_grad():
            p.copy_(torch.tensor(vals, dtype=dtype).reshape(p.shape))
    return model


def build_loss(case):
    if case["loss"] == "mse":
        return nn.MSELoss(reduction=case["red"])
    if case["loss"] == "ce":
        return nn.CrossEntropyLoss(reduction=case["red"])
    return nn.BCEWithLogitsLoss(reduction=case["red"])


def inputs(case, idx, dtype=torch.float64):
    rows = [case["x"][i - 1] for i in idx]
    return torch.tensor(rows, dtype=dtype).reshape(len(idx), *case["xshape"])


def targets(case, idx, dtype=torch.float64):
    rows = [case["y"][i - 1] for i in idx]
    if case["loss"] == "ce":
        t = torch.tensor(rows, dtype=torch.long) - 1
    else:
        t = torch.tensor(rows, dtype=dtype)
    t = t.reshape(len(idx), *case["yshape"])
    if case.get("merge"):
        return t.flatten() if case["loss"] == "ce" else t.flatten(0, -2)
    return t


def batches(case, split, dtype=torch.float64, as_dict=False):
    """List of (X, y), one per batch of the split (lists of 1-based indices)."""
    out = []
    for idx in split:
        x = inputs(case, idx, dtype)
        out.append(({"x": x} if as_dict else x, targets(case, idx, dtype)))
    return out


def merged(rng, case, prob=0.4):
    """The same case, sometimes with a network whose loss terms of all data are rows of its output."""
    return dict(case, merge=True) if case["R"] > 1 and rng.random() < prob else case


def batch_size_fn(x):
    return x["x"].shape[0]


# --------------------------------------------------------------------------
# generators
# --------------------------------------------------------------------------
def ri(rng, lo=-2, hi=2, nz=False):
    while True:
        v = rng.randint(lo, hi)
        if v or not nz:
            return v


class Builder:
    """Collects layers and parameters; tracks the activation's shape."""

    def __init__(self, rng, xshape):
        self.rng = rng
        self.layers = []
        self.params = []
        self.pshapes = []
        self.pnames = []
        self.shape = tuple(xshape)

    def param(self, shape, lo=-2, hi=2):
        n = math.prod(shape)
        vals = [ri(self.rng, lo, hi) for _ in range(n)]
        if not any(vals) and n:
            vals[self.rng.randrange(n)] = 1
        self.params.append(vals)
        self.pshapes.append(list(shape))
        return len(self.params)

    def lin(self, o, bias=True, lo=-1, hi=1):
        i = self.shape[-1]
        w = self.param((o, i), lo, hi)
        b = self.param((o,), lo, hi) if bias else 0
        self.layers.append({"k": "lin", "i": i, "o": o, "w": w, "b": b})
        self.shape = (*self.shape[:-1], o)
        return self

    def conv(self, co, kh, kw, sh=1, sw=1, ph=0, pw=0, dh=1, dw=1, g=1, mode="zeros", bias=True,
             lo=-1, hi=1):
        ci, h, w = self.shape
        wt = self.param((co, ci // g, kh, kw), lo, hi)
        b = self.param((co,), lo, hi) if bias else 0
        self.layers.append(
            {"k": "conv", "ci": ci, "h": h, "w": w, "co": co, "kh": kh, "kw": kw, "sh": sh,
             "sw": sw, "ph": ph, "pw": pw, "dh": dh, "dw": dw, "g": g, "mode": mode, "wt": wt, "b": b}
        )
        oh = (h + 2 * ph - dh * (kh - 1) - 1) // sh + 1
        ow = (w + 2 * pw - dw * (kw - 1) - 1) // sw + 1
        self.shape = (co, oh, ow)
        return self

    def act(self, k):
        self.layers.append({"k": k})
        return self

    def gain(self):
        w = self.param((), 1, 2)
        self.layers.append({"k": "gain", "w": w})
        return self

    def shift(self):
        w = self.param(self.shape, -1, 1)
        self.layers.append({"k": "shift", "w": w, "shape": list(self.shape)})
        return self

    def cum(self):
        self.layers.append({"k": "cum", "c": self.shape[-1]})
        return self

    def sumT(self):
        self.layers.append({"k": "sumT", "c": self.shape[-1]})
        self.shape = (*self.shape[:-2], self.shape[-1])
        return self

    def tr(self):
        self.layers.append({"k": "tr", "c": self.shape[-1]})
        self.shape = (self.shape[-1], *self.shape[:-1])
        return self

    def gate(self):
        c = self.shape[-1] // 2
        self.layers.append({"k": "gate", "c": c})
        self.shape = (*self.shape[:-1], c)
        return self

    def res(self, frm):
        self.layers.append({"k": "res", "from": frm})
        return self

    def flat(self):
        self.layers.append({"k": "flat"})
        self.shape = (math.prod(self.shape),)
        return self


ARCHS = ["mlp", "seq", "linear", "linseq", "conv", "convout", "scalar", "res", "gate", "grid", "deep", "broad"]


def make_case(rng, arch, loss, red, N, cid, xlo=-2, xhi=2, zmax=7, small=False):
    """One random case; retried until logits stay small (ce, bce)."""
    for _ in range(200):
        c = _make(rng, arch, loss, red, N, xlo, xhi, small)
        if c is None:
            continue
        c["id"] = cid
        z = forward_ints(c)
        if loss != "mse" and (z.abs().max() > zmax or z.abs().max() == 0):
            continue
        if z.abs().max() > 300:
            continue
        return c
    raise RuntimeError(f"no case for {arch} {loss}")


def forward_ints(c):
    model = build_model(c)
    model.final = nn.Identity()
    with torch.no_grad():
        return model(inputs(c, range(1, len(c["x"]) + 1)))


def _make(rng, arch, loss, red, N, xlo, xhi, small):
    C = rng.choice([2, 3]) if loss == "ce" else rng.choice([1, 2, 2])
    bias = lambda: rng.random() < 0.75  # noqa: E731
    act = lambda: rng.choice(["sq", "relu", "sq", "cube"] if loss == "mse" else ["sq", "relu"])  # noqa: E731
    if arch == "mlp":
        b = Builder(rng, (rng.choice([1, 2, 3]),))
        b.lin(rng.choice([1, 2]), bias()).act(act()).lin(C, bias())
    elif arch == "deep":
        b = Builder(rng, (2,))
        b.lin(2, bias()).act("relu").lin(2, bias()).act("sq").lin(C, bias())
    elif arch == "seq":
        b = Builder(rng, (2, rng.choice([1, 2])))
        b.lin(2, bias()).act(act()).cum().lin(C, bias())
        if loss == "ce":
            b.tr()
    elif arch == "linear":
        b = Builder(rng, (rng.choice([2, 3]),))
        b.lin(C, bias())
    elif arch == "linseq":
        b = Builder(rng, (3, 2))
        b.lin(C, bias())
        if rng.random() < 0.5:
            b.cum()
        if loss == "ce":
            b.tr()
    elif arch == "conv":
        b = Builder(rng, (rng.choice([1, 2]), 3, 3))
        g = rng.choice([1, b.shape[0]])
        b.conv(2, 2, 2, g=g, ph=rng.choice([0, 1]), sh=rng.choice([1, 2]), bias=bias()).act(act())
        b.flat().lin(C, bias())
    elif arch == "convout":
        b = Builder(rng, (1, 3, 2))
        b.conv(2, 2, 1, bias=bias()).act("sq")
        if loss == "ce":
            b.conv(C, 1, 2, bias=bias())  # (C, 2, 1)
        else:
            b.conv(rng.choice([1, 2]), 1, 1, bias=bias())  # last dimension is the width
    elif arch == "scalar":
        b = Builder(rng, (2,))
        b.lin(2, bias()).gain().act(act()).shift().lin(C, bias()).gain()
    elif arch == "res":
        b = Builder(rng, (2,))
        b.lin(2, bias())
        k = len(b.layers)
        b.act("sq").lin(2, bias()).res(k).lin(C, bias())
    elif arch == "gate":
        b = Builder(rng, (2, 2))
        b.lin(4, bias()).gate().sumT().lin(C, bias())
    elif arch == "broad":  # many outputs
        C = rng.choice([4, 5, 6])
        b = Builder(rng, (rng.choice([1, 2]),))
        if rng.random() < 0.3:
            b.lin(1, bias()).act(act())
        b.lin(C, bias())
    elif arch == "grid":
        b = Builder(rng, (2, 2, 1))
        b.lin(2, bias()).act("sq").lin(C, bias())
        if loss == "ce":
            b.tr()
    else:
        raise KeyError(arch)
    zshape = b.shape
    if loss == "ce":
        C = zshape[0]
        R = math.prod(zshape[1:])
        yshape = list(zshape[1:])
    else:
        C = zshape[-1]
        R = math.prod(zshape[:-1])
        yshape = list(zshape)
    xshape = _fill(arch, b)
    x = [[ri(rng, xlo, xhi) for _ in range(math.prod(xshape))] for _ in range(N)]
    if loss == "ce":
        y = [[rng.randint(1, C) for _ in range(R)] for _ in range(N)]
    elif loss == "bce":
        y = [[rng.randint(0, 1) for _ in range(R * C)] for _ in range(N)]
    else:
        y = [[ri(rng, -2, 2) for _ in range(R * C)] for _ in range(N)]
    return {
        "arch": arch, "layers": b.layers, "params": b.params, "pshapes": b.pshapes, "x": x, "y": y,
        "xshape": xshape, "yshape": yshape, "zshape": list(zshape), "loss": loss, "red": red,
        "R": R, "C": C, "sel": [], "sels": [list(range(1, len(b.params) + 1))], "blocks": [],
        "nd": 0, "second": True, "contig": False,
        "linear": arch in ("linear", "linseq") or (arch == "broad" and len(b.layers) == 1),
    }


def _fill(arch, b):
    first = b.layers[0]
    if first["k"] == "conv":
        return [first["ci"], first["h"], first["w"]]
    i = first["i"]
    return {"seq": [2, i], "linseq": [3, i], "gate": [2, i], "grid": [2, 2, i]}.get(arch, [i])


def many_data(rng, arch, sizes, thorough=False):
    """A number of data points; the smallest networks sometimes get many."""
    if arch in ("linear", "broad", "mlp") and rng.random() < (0.5 if thorough else 0.35):
        return rng.choice([5, 6, 7])
    return rng.choice(sizes)


def other_count(rng, N):
    """An explicit data-set size that is not the number of points presented."""
    return rng.choice([k for k in range(1, N + 6) if k != N])


def all_orders(n, limit, rng):
    perms = list(itertools.permutations(range(1, n + 1))) if n <= 5 else None
    if perms is not None and len(perms) <= limit:
        return [list(p) for p in perms]
    out = []
    while len(out) < limit:
        p = list(range(1, n + 1))
        rng.shuffle(p)
        if p not in out:
            out.append(p)
    return out
