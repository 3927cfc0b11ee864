"""Arbitrary rational Kronecker factors put into real KFAC operators through
their public state dictionaries (KronBlocks.tla, KfacProp.tla, KfacInv.tla)."""

import math
from fractions import Fraction

import kfacs
import nets
import torch
from core import big


def rnd(rng, n, kind):
    """Symmetric n x n matrix of fractions: spd, psd (singular), sym (indefinite)."""
    while True:
        if kind == "zero":
            return [[Fraction(0)] * n for _ in range(n)]
        if kind == "sym":
            A = [[Fraction(0)] * n for _ in range(n)]
            for i in range(n):
                for j in range(i + 1):
                    A[i][j] = A[j][i] = Fraction(rng.randint(-2, 2))
        else:
            k = n if kind == "spd" else max(1, n - 1)
            G = [[rng.randint(-1, 1) for _ in range(k)] for _ in range(n)]
            q = rng.choice([1, 2, 4])
            A = [[Fraction(sum(G[i][m] * G[j][m] for m in range(k)), q) for j in range(n)] for i in range(n)]
            if kind == "spd":
                for i in range(n):
                    A[i][i] += Fraction(rng.choice([1, 1, 2]), 2)
        if sum(A[i][i] for i in range(n)) > 0 or kind == "sym":
            return A


def rescale(A, mean):
    """Scale a matrix to the given mean of the diagonal."""
    t = sum(A[i][i] for i in range(len(A))) / len(A)
    if t == 0:
        return A
    return [[a * mean / t for a in row] for row in A]


def enc(A):
    return [[[big(a.numerator), big(a.denominator)] for a in row] for row in A]


def layer_blocks(c, g, rng, kind="spd", square=False):
    """Blocks (KronBlocks records) with random factors for a configuration."""
    blocks = []
    lone = None
    if kind == "psd" and rng.random() < 0.5:
        lone = (rng.choice([0, 0, 1]), *rng.choice([("psd", "spd"), ("zero", "spd"), ("spd", "psd"), ("spd", "zero")]))
    for li, ly in enumerate(c["layers"], start=1):
        if ly["k"] not in ("lin", "conv"):
            continue
        wk = ly["w"] if ly["k"] == "lin" else ly["wt"]
        w = g["sel"].index(wk) + 1 if wk in g["sel"] else 0
        b = g["sel"].index(ly["b"]) + 1 if ly["b"] in g["sel"] else 0
        if not (w or b):
            continue
        o = ly["o"] if ly["k"] == "lin" else ly["co"]
        n = len(c["params"][wk - 1]) // o
        joint = bool(w and b and not g["sep"])
        kA = kB = kind
        if kind == "psd" and lone:  # all regular but one
            kA = kB = "spd"
            if lone[0] == len(blocks):
                kA, kB = lone[1:]
        elif kind == "psd" and rng.random() < 0.4:
            kA, kB = rng.choice([("zero", "psd"), ("psd", "zero"), ("spd", "psd"), ("psd", "spd")])
        A = rnd(rng, n + joint, kA) if w else []
        B = rnd(rng, o, kB)
        if square:
            s = [Fraction(1, 4), Fraction(1), Fraction(4), Fraction(9, 4)]
            if rng.random() < 0.2:
                s = [Fraction(1, 2**24), Fraction(2**20)]
            A, B = rescale(A, rng.choice(s)) if A else A, rescale(B, rng.choice(s))
        blocks.append({"layer": li, "w": w, "b": b, "joint": joint, "A": enc(A), "B": enc(B)})
    return blocks


def tens(A, dtype):
    return torch.tensor([[int(n) / int(d) for n, d in row] for row in A], dtype=dtype)


def factor_dicts(model, blocks, dtype):
    aa, gg = {}, {}
    order = list(blocks)
    for bl in order:
        name = model.index[bl["layer"] - 1]
        if bl["w"]:
            aa[name] = tens(bl["A"], dtype)
        gg[name] = tens(bl["B"], dtype)
    return aa, gg


def inject(op, model, blocks, dtype, factor=1):
    """Load the factors into the operator through its state dictionary."""
    sd = op.state_dict()
    sd["input_covariances"], sd["gradient_covariances"] = factor_dicts(model, blocks, dtype)
    if factor != 1:  # of the represented matrix
        sd["gradient_covariances"] = {k: v * factor for k, v in sd["gradient_covariances"].items()}
    sd["trace"] = sd["det"] = sd["logdet"] = sd["frobenius_norm"] = None
    op.load_state_dict(sd)


def pick_cfg(rng, c, full=0.5):
    kp = kfacs.kfac_params(c)
    sel = list(kp) if rng.random() < full else rng.sample(kp, rng.randint(1, len(kp)))
    if rng.random() < 0.4:
        rng.shuffle(sel)
    return {"sel": sel, "fisher": rng.choice(["empirical", "type2", "forward"]),
            "approx": rng.choice(["expand", "reduce"]), "sep": rng.random() < 0.5, "nd": 0}


def gen(rng, archs, count, maxD=18):
    """Random (case, configuration) pairs; the network only supplies the layers."""
    out = []
    while len(out) < count:
        arch = archs[len(out) % len(archs)]
        loss = rng.choice(["mse", "ce", "bce"])
        c = kfacs.make_case(rng, arch, loss, rng.choice(["mean", "sum"]), rng.choice([1, 2]), len(out) + 1)
        for _ in range(20):
            g = pick_cfg(rng, c)
            if sum(len(c["params"][k - 1]) for k in g["sel"]) <= maxD:
                out.append((c, g))
                break
    return out


def spec_case(cid, c, g, blocks, **extra):
    return {"id": cid, "blocks": [{k: b[k] for k in ("w", "b", "joint", "A", "B")} for b in blocks],
            "sizes": [len(c["params"][k - 1]) for k in g["sel"]], **extra}


def slim(c):
    """Fields of a case the replay needs."""
    return c


def numel(shape):
    return math.prod(shape)


def fresh(c, g, rng, dtype, **kw):
    model = nets.build_model(c, dtype, nested=nets.nested(rng))
    return kfacs.build(c, g, [list(range(1, len(c["x"]) + 1))], rng, dtype, model=model,
                       check_deterministic=False, **kw)
