"""Cases of the empirical-risk specification (Risk.tla) and their exact values."""

import math

import nets
import torch
from core import decode, frac

LN2 = math.log(2.0)


class Expect:
    """Exact values of a case printed by TLC, as float64 tensors."""

    def __init__(self, case, recs):
        v = next(r for r in recs if r["kind"] == "values")
        self.case = case
        s = 1.0 if case["loss"] == "mse" else LN2
        norm = float(frac(v["norm"]))
        t = lambda m: torch.tensor(decode(m), dtype=torch.float64)  # noqa: E731
        self.D = v["D"]
        # the definitions already carry the normalisation
        self.ggn = s**2 * t(v["ggn"])
        self.res = s * t(v["res"])
        self.hess = self.ggn + self.res
        self.ef = s**2 * t(v["ef"])
        self.grad = s * t(v["gr"])
        self.J = s * t(v["J"])  # (N, Z, D)
        self.z = s * t(v["z"])
        ls = frac(v["ls"])
        if case["loss"] == "mse":
            self.loss = norm * float(ls)
        else:
            self.loss = norm * (math.log(ls.numerator) - math.log(ls.denominator))
        self.sels = [torch.tensor([i - 1 for i in s_]) for s_ in v["sels"]]
        self.blocks = [torch.tensor(b) for b in v["blocks"]]
        self.splits = [r["batches"] for r in recs if r["kind"] == "split"]

    def sub(self, M, s):
        """Rows and columns of parameter selection number ``s``."""
        idx = self.sels[s]
        return M[idx][:, idx]

    def blocked(self, M, b):
        """Block-diagonal part of the first selection's matrix for block sizes ``b``."""
        A = self.sub(M, 0)
        ids = self.blocks[b]
        return A * (ids[:, None] == ids[None, :])

    def jac(self, order, s):
        """Rows (n, c) in the given data order, columns of selection ``s``."""
        J = self.J[[i - 1 for i in order]]
        return J.flatten(0, 1)[:, self.sels[s]]


def weight(c):
    D = sum(len(p) for p in c["params"])
    return D * D * len(c["x"]) * (1 if c["second"] else 0.3) * len(c["layers"])


def listed(case, model, s):
    """Parameters and their shapes for selection ``s``."""
    ps = model.case_params()
    sel = case["sels"][s]
    return [ps[k - 1] for k in sel], [case["pshapes"][k - 1] for k in sel]


def compositions(n):
    """All ordered lists of positive integers summing to n."""
    if n == 0:
        return [[]]
    return [[k, *rest] for k in range(1, n + 1) for rest in compositions(n - k)]


def rand_sels(rng, case, count, full_first=True):
    """Random non-empty ordered selections of parameters; the first is a full order."""
    n = len(case["params"])
    out = []
    full = list(range(1, n + 1))
    if full_first:
        p = full[:]
        if rng.random() < 0.6:
            rng.shuffle(p)
        out.append(p)
    tries = 0
    while len(out) < count and tries < 50:
        tries += 1
        k = rng.randint(1, n)
        s = rng.sample(full, k)
        if s not in out:
            out.append(s)
    return out


def rand_split(rng, N):
    idx = list(range(1, N + 1))
    rng.shuffle(idx)
    out = []
    while idx:
        k = rng.randint(1, len(idx))
        out.append(idx[:k])
        idx = idx[k:]
    return out


def freeze_unlisted(model, listed_params, rng):
    """Parameters that are not listed may or may not require gradients."""
    ids = {id(p) for p in listed_params}
    for p in model.parameters():
        if id(p) not in ids:
            p.requires_grad_(rng.random() < 0.5)


class Source:
    """A re-iterable data source that is not a list."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


class SizedSource(Source):
    def __len__(self):
        return len(self.items)


def wrap(rng, items):
    r = rng.random()
    if r < 0.6:
        return items
    return Source(items) if r < 0.8 else SizedSource(items)
