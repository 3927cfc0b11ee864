"""C13: KFAC trace, det, logdet and Frobenius norm are those of the represented matrix."""

import math
import random

import kfacs
import kron
import torch
from cmp import check_map
from core import Mismatch, decode, fl, frac
from lifes import Boom, HardBoom, OpFault

PROPS = ("trace", "det", "logdet", "frobenius_norm")


def expect_number(got, want, what, scale, tol):
    if isinstance(got, torch.Tensor):
        if got.numel() != 1:
            raise Mismatch(f"{what}: {tuple(got.shape)} instead of a scalar")
        got = got.item()
    if not (abs(got - want) <= tol * scale):
        raise Mismatch(f"{what} is {got!r}, expected {want!r}")


class Values:
    """Exact values of the represented matrix as floats."""

    def __init__(self, rec, M, scale=1.0, lnscale=0.0):
        self.M = M
        n = len(M)
        self.trace = fl(rec["trace"]) * scale
        self.frob = math.sqrt(frac(rec["frob2"])) * scale
        d = frac(rec["det"])
        try:
            self.det = float(d) * scale**n
        except OverflowError:
            self.det = math.inf
        self.logdet = None
        if d > 0:
            self.logdet = math.log(d.numerator) - math.log(d.denominator) + n * math.log(scale)
        ev = torch.linalg.eigvalsh(M) if n else torch.zeros(0)
        self.pd = n > 0 and bool(ev.min() > 1e-6 * ev.abs().max())
        # singular: bounds by the product of the diagonal (positive semi-definite matrices)
        self.zero = d == 0
        self.hadamard = sum(math.log(x) if x > 0 else -math.inf for x in M.diagonal().tolist())
        # scale of rounding errors of the determinant
        self.det_scale = max(abs(self.det), 1e-300)


def one(op, vals, which, dtype, what, det_ok, psd=False):
    loose = dtype != torch.float64
    if which == "trace":
        s = max(abs(vals.trace), float(vals.M.diagonal().abs().sum()))
        expect_number(op.trace, vals.trace, what + ".trace", max(s, 1e-12), 1e-4 if loose else 1e-9)
    elif which == "frob2":
        expect_number(op.frobenius_norm, vals.frob, what + ".frobenius_norm", max(vals.frob, 1e-12),
                      1e-4 if loose else 1e-9)
    elif which == "det":
        if det_ok:
            expect_number(op.det, vals.det, what + ".det", vals.det_scale, 2e-3 if loose else 1e-7)
        elif psd and vals.zero and not loose:
            expect_number(op.det, 0.0, what + ".det", math.exp(vals.hadamard), 1e-7)
        else:
            op.det
    elif which == "logdet":
        if vals.logdet is not None and vals.pd:
            expect_number(op.logdet, vals.logdet, what + ".logdet", max(1.0, abs(vals.logdet)),
                          2e-3 if loose else 1e-7)
        elif psd and vals.zero and not loose:  # minus infinity, up to rounding of a determinant
            got = float(op.logdet)
            if got > vals.hadamard - 12:
                raise Mismatch(f"{what}.logdet of a singular matrix is {got} (log of the product of its diagonal: {vals.hadamard})")
        else:
            op.logdet
    else:
        raise KeyError(which)


def product(op, vals, shapes, dtype, rng, what):
    return check_map(op, vals.M, shapes, shapes, dtype, rng, what, eye=rng.random() < 0.5, ks=(2,),
                     lists=rng.random() < 0.5)


def failing(op, which, dtype, rng):
    """A request in which some tensor operation fails."""
    try:
        with OpFault(rng.randint(1, rng.choice([3, 10, 40])), HardBoom if rng.random() < 0.3 else Boom):
            if which == "product":
                op @ torch.ones(op.shape[1], dtype=dtype)
            else:
                getattr(op, {"frob2": "frobenius_norm"}.get(which, which))
    except (Boom, HardBoom):
        return 1
    return 0


def replay_injected(item):
    """Request histories on operators with given factors."""
    c, g = item["case"], item["cfg"]
    rng = random.Random(item["seed"])
    v = next(r for r in item["recs"] if r["kind"] == "values")
    M = torch.tensor(decode(v["M"]), dtype=torch.float64)
    hists = [r["hist"] for r in item["recs"] if r["kind"] == "requests"]
    n = struck = 0
    hists = rng.sample([h for h in hists if not h[0].startswith("failing")], min(len(hists), item["limit"] // 3)) + \
        rng.sample([h for h in hists if any(r.startswith("failing") for r in h)], item["limit"])
    for h in hists:
        dtype = torch.float64 if rng.random() < 0.8 else torch.float32
        op, shapes, model = kron.fresh(c, g, rng, dtype)
        extreme = item["posdef"] and rng.random() < 0.3
        vals = Values(v, M)
        if extreme:  # the determinant may leave the range of numbers, its logarithm does not
            s = 2.0 ** (rng.choice([-1, 1]) * (rng.choice([60, 120, 180]) if dtype == torch.float64 else 24))
            vals = Values(v, M * s, s)
        kron.inject(op, model, item["blocks"], dtype, factor=s if extreme else 1)
        what = f"KFAC(factor={s if extreme else 1}, {'separate' if g['sep'] else 'joint'}, params={g['sel']}, {c['arch']}, {dtype}) after {h}"
        # det of (nearly) singular matrices in low precision is not compared
        det_ok = abs(vals.det) > 0 and not extreme
        for req in h:
            if req.startswith("failing "):
                struck += failing(op, req[8:], dtype, rng)
            elif req == "product":
                n += product(op, vals, shapes, dtype, rng, what)
            else:
                one(op, vals, req, dtype, what, det_ok and (dtype == torch.float64 or item["posdef"]), item["psd"])
                n += 1
    return {"n": n, "traces": len(hists), "struck": struck, "fails": []}


def replay_real(item):
    """Properties of computed factors."""
    c = item["case"]
    ex = kfacs.KExpect(c, item["recs"])
    rng = random.Random(item["seed"])
    n = tr = 0
    for gi, g in enumerate(c["cfgs"]):
        M = ex.matrix(gi)
        vals = Values(ex.vals[gi], M, ex.scale(gi))
        det_ok = c["dets"] and vals.pd
        for split in rng.sample(ex.splits, min(item["splits"], len(ex.splits))):
            dtype = torch.float64 if rng.random() < 0.85 else torch.float32
            op, shapes, _ = kfacs.build(c, g, split, rng, dtype)
            what = kfacs.describe(c, g, split, dtype)
            reqs = [rng.choice(["trace", "det", "logdet", "frob2", "product"]) for _ in range(3)]
            reqs += ["trace", "det", "logdet", "frob2", "product"]
            rng.shuffle(reqs)
            for r in reqs:
                if r == "product":
                    n += product(op, vals, shapes, dtype, rng, what)
                elif r in ("det", "logdet") and not (det_ok and dtype == torch.float64):
                    op.det if r == "det" else op.logdet
                else:
                    one(op, vals, r, dtype, what, det_ok)
                    n += 1
            tr += 1
    return {"n": n, "traces": tr, "fails": []}


def run(ctx):
    rng = ctx.rng()
    reps = 12 if ctx.thorough else 3
    pairs = kron.gen(rng, kfacs.KARCHS, 48 * reps)
    spec, items = [], {}
    for i, (c, g) in enumerate(pairs, start=1):
        kind = rng.choice(["spd", "spd", "sym", "psd", "psd"])
        bl = kron.layer_blocks(c, g, rng, kind)
        spec.append(kron.spec_case(i, c, g, bl, semidef=kind != "sym", depth=4 if ctx.thorough else 3))
        items[i] = {"task": "injected", "case": c, "cfg": g, "blocks": bl, "posdef": kind == "spd", "psd": kind == "psd",
                    "seed": f"{ctx.seed}/{i}", "limit": 200 if ctx.thorough else 30}
    recs = ctx.tlc("KfacProp", spec, weight=lambda s: sum(s["sizes"]) ** 2)
    for i, it in items.items():
        it["recs"] = recs[i]
    ctx.sample({"request history": [r["hist"] for r in recs[1] if r["kind"] == "requests"][0],
                "layers": pairs[0][0]["layers"]})
    ctx.pmap(replay_injected, list(items.values()))

    cases = kfacs.gen(ctx, reps=2 if ctx.thorough else 1, tag="c13", sizes=(1, 2, 3), ncfg=3, maxD=14)
    recs = ctx.tlc("Kfac", cases, weight=kfacs.weight)
    ctx.pmap(replay_real, [{"task": "real", "case": c, "recs": recs[c["id"]], "seed": f"{ctx.seed}/r{c['id']}",
                            "splits": 6 if ctx.thorough else 2} for c in cases])
