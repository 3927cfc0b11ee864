"""Cases of the KFAC specification (Kfac.tla) and their replay."""

import math
import random

import nets
import risk
import torch
from core import decode, fl, frac

LN2 = math.log(2.0)
KARCHS = ["mlp", "deep", "seq", "linear", "linseq", "conv", "convout", "scalar", "res", "gate", "grid",
          "broad", "bigconv", "groupconv", "padconv", "strideconv", "seqconv"]


def _conv_case(rng, arch, b, loss, C):
    bias = rng.random() < 0.7
    if arch == "groupconv":
        g, per = {2: (2, 1), 3: (3, 1), 4: rng.choice([(2, 2), (4, 1)])}[b.shape[0]]
        b.conv(g * rng.choice([1, 2] if g == 2 else [1]), 2, rng.choice([1, 2]), g=g, ph=rng.choice([0, 1]),
               sh=rng.choice([1, 1, 2]), bias=bias)
    elif arch == "padconv":
        b.conv(rng.choice([1, 2]), 2, 3, ph=1, pw=rng.choice([1, 2]), mode=rng.choice(["replicate", "reflect", "circular"]),
               sh=rng.choice([1, 1, 2, 3]), sw=rng.choice([1, 1, 2]), bias=bias)
    elif arch == "strideconv":
        b.conv(1, 2, 1, sh=rng.choice([1, 2, 3]), sw=rng.choice([1, 2, 3]), dh=2, dw=rng.choice([1, 3]), ph=rng.choice([0, 2]), pw=1,
               bias=bias)
    else:  # bigconv: two convolutions, string padding
        dh, dw = rng.choice([1, 1, 2]), rng.choice([1, 2])
        b.conv(1, 3, 3, ph=dh, pw=dw, dh=dh, dw=dw, bias=bias)
        b.layers[-1]["strpad"] = "same"
        b.act("relu")
        b.conv(2, 2, 2, bias=rng.random() < 0.7)
        if rng.random() < 0.5:
            b.layers[-1]["strpad"] = "valid"
    b.act(rng.choice(["sq", "relu"])).flat().lin(C, bias=rng.random() < 0.7)


def make_case(rng, arch, loss, red, N, cid):
    if arch not in ("bigconv", "groupconv", "padconv", "strideconv", "seqconv"):
        return nets.make_case(rng, arch, loss, red, N, cid)
    for _ in range(300):
        C = rng.choice([2, 3]) if loss == "ce" else rng.choice([1, 2])
        ci = {"groupconv": rng.choice([2, 3, 4]), "padconv": 1, "strideconv": 2, "bigconv": 1, "seqconv": 1}[arch]
        h, w = {"groupconv": (3, 2) if ci == 2 else (2, 2), "padconv": (3, 3), "strideconv": (4, 3), "bigconv": (3, 3),
                "seqconv": (2, 3)}[arch]
        b = nets.Builder(rng, (ci, h, w))
        if arch == "seqconv":  # convolution whose output pixels are sequence positions of a linear layer
            b.conv(2, 2, 1, bias=rng.random() < 0.7)  # (2, 1, 3)
            b.act("sq").lin(C, bias=rng.random() < 0.7)  # acts on the width
            if loss == "ce":
                b.flat().lin(C)
        else:
            _conv_case(rng, arch, b, loss, C)
        z = b.shape
        R = math.prod(z[1:]) if loss == "ce" else math.prod(z[:-1])
        Cc = z[0] if loss == "ce" else z[-1]
        x = [[nets.ri(rng, -1, 2) for _ in range(ci * h * w)] for _ in range(N)]
        if loss == "ce":
            y = [[rng.randint(1, Cc) for _ in range(R)] for _ in range(N)]
        elif loss == "bce":
            y = [[rng.randint(0, 1) for _ in range(R * Cc)] for _ in range(N)]
        else:
            y = [[nets.ri(rng) for _ in range(R * Cc)] for _ in range(N)]
        c = {
            "arch": arch, "layers": b.layers, "params": b.params, "pshapes": b.pshapes, "x": x, "y": y,
            "xshape": [ci, h, w], "yshape": list(z[1:]) if loss == "ce" else list(z), "zshape": list(z),
            "loss": loss, "red": red, "R": R, "C": Cc, "sel": [], "sels": [], "blocks": [], "nd": 0,
            "second": False, "linear": False, "contig": False, "id": cid,
        }
        zz = nets.forward_ints(c)
        if (loss != "mse" and zz.abs().max() > 8) or zz.abs().max() > 300 or zz.abs().max() == 0:
            continue
        return c
    raise RuntimeError("no case " + arch)


def kfac_params(case):
    """Positions (1-based) of parameters of Linear and Conv2d layers, in model order."""
    out = []
    for ly in case["layers"]:
        if ly["k"] == "lin":
            out += [ly["w"]] + ([ly["b"]] if ly["b"] else [])
        elif ly["k"] == "conv":
            out += [ly["wt"]] + ([ly["b"]] if ly["b"] else [])
    return out


def positionwise(case):
    """Every layer position influences one loss term only."""
    return case["R"] == 1 or (
        case["arch"] in ("linseq", "grid") and all(ly["k"] != "cum" for ly in case["layers"])
    )


def gen(ctx, archs=KARCHS, reps=1, sizes=(1, 2, 3), ncfg=4, tag="", losses=("mse", "ce", "bce"), full=None,
        fishers=("type2", "empirical", "forward"), maxD=24):
    rng = ctx.rng("kfac" + tag)
    cases = []
    combos = [(a, lo, red) for _ in range(reps) for a in archs for lo in losses for red in ("mean", "sum")]
    for arch, loss, red in combos:
        for _ in range(20):
            N = rng.choice(sizes)
            c = make_case(rng, arch, loss, red, N, len(cases) + 1)
            kp = kfac_params(c)
            if sum(len(c["params"][k - 1]) for k in kp) <= maxD:
                break
        cfgs = []
        for fisher in fishers:
            for approx in ("expand", "reduce"):
                if fisher == "type2" and loss != "mse" and not (
                    c["R"] == 1 or (positionwise(c) and approx == "expand")
                ):
                    continue
                k = rng.randint(1, len(kp))
                sel = rng.sample(kp, k) if rng.random() < 0.5 and not full else list(kp)
                if rng.random() < 0.4:
                    rng.shuffle(sel)
                cfgs.append({"sel": sel, "fisher": fisher, "approx": approx, "sep": rng.random() < 0.5,
                             "nd": 0 if rng.random() < 0.75 else nets.other_count(rng, N)})
        rng.shuffle(cfgs)
        # prefer back-propagated Fisher types
        cfgs.sort(key=lambda g: g["fisher"] == "forward")
        if len(cfgs) > ncfg:
            cfgs = cfgs[: ncfg - 1] + [cfgs[-1]]
        c["cfgs"] = cfgs
        D = sum(len(c["params"][k - 1]) for k in kp)
        c["dets"] = D <= 16
        c["contig"] = False
        cases.append(c)
    return cases


def weight(c):
    D = sum(len(p) for p in c["params"])
    return len(c["cfgs"]) * (D * D * 3 + len(c["x"]) * 200) * len(c["layers"])


class KExpect:
    def __init__(self, case, recs):
        self.case = case
        self.vals = {r["cfg"] - 1: r for r in recs if r["kind"] == "values"}
        self.splits = [r["batches"] for r in recs if r["kind"] == "split"]

    def scale(self, gi):
        if self.case["loss"] == "mse":
            return 1.0
        return LN2 ** self.vals[gi]["sb"]

    def matrix(self, gi):
        return torch.tensor(decode(self.vals[gi]["M"]), dtype=torch.float64) * self.scale(gi)

    def trace(self, gi):
        return fl(self.vals[gi]["trace"]) * self.scale(gi)

    def frob(self, gi):
        return math.sqrt(frac(self.vals[gi]["frob2"])) * self.scale(gi)

    def det(self, gi):
        return fl(self.vals[gi]["det"]) * self.scale(gi) ** len(self.vals[gi]["M"])


def fisher_type(name):
    from curvlinops import FisherType

    return {"type2": FisherType.TYPE2, "empirical": FisherType.EMPIRICAL, "mc": FisherType.MC,
            "forward": FisherType.FORWARD_ONLY}[name]


def kfac_type(name):
    from curvlinops import KFACType

    return {"expand": KFACType.EXPAND, "reduce": KFACType.REDUCE}[name]


def build(c, g, split, rng, dtype, model=None, data=None, allow_dict=True, **kw):
    from curvlinops import KFACLinearOperator

    if model is None and data is None:
        c = nets.merged(rng, c)
    model = nets.build_model(c, dtype, nested=nets.nested(rng), inplace=rng.random() < 0.5) if model is None else model
    ps = model.case_params()
    params = [ps[k - 1] for k in g["sel"]]
    shapes = [c["pshapes"][k - 1] for k in g["sel"]]
    if data is None:
        as_dict = allow_dict and rng.random() < 0.15
        data = risk.wrap(rng, nets.batches(c, split, dtype, as_dict))
        if as_dict:
            kw["batch_size_fn"] = nets.batch_size_fn
    if g["nd"]:
        kw["num_data"] = g["nd"]
    elif rng.random() < 0.3:
        kw["num_data"] = len(c["x"])
    if g["nd"] or rng.random() < 0.5:
        kw["num_per_example_loss_terms"] = c["R"]
    kw.setdefault("check_deterministic", rng.random() < 0.08)
    op = KFACLinearOperator(
        model, nets.build_loss(c), params, data, fisher_type=fisher_type(g["fisher"]),
        kfac_approx=kfac_type(g["approx"]), separate_weight_and_bias=g["sep"], **kw
    )
    return op, shapes, model


def describe(c, g, split, dtype):
    return (f"KFAC({g['fisher']}, {g['approx']}, {'separate' if g['sep'] else 'joint'}, params={g['sel']}, "
            f"num_data={g['nd'] or None}, {c['arch']}, {c['loss']}-{c['red']}, split={split}, {dtype})")
