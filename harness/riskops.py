"""Replay of risk cases on one kind of operator (shared by several checks)."""

import random

import nets
import risk
import torch
from cmp import check_map, close, same_list, split_list
from core import Mismatch


def make_op(kind, model, loss, params, data, **kw):
    import curvlinops as cl

    if kind == "hess":
        return cl.HessianLinearOperator(model, loss, params, data, **kw)
    if kind == "ggn":
        return cl.GGNLinearOperator(model, loss, params, data, **kw)
    if kind == "ef":
        return cl.EFLinearOperator(model, loss, params, data, **kw)
    if kind == "jac":
        return cl.JacobianLinearOperator(model, params, data, **kw)
    if kind == "jact":
        return cl.TransposedJacobianLinearOperator(model, params, data, **kw)
    raise KeyError(kind)


def expected(kind, ex, s, split):
    order = [i for b in split for i in b]
    if kind == "hess":
        return ex.sub(ex.hess, s)
    if kind == "ggn":
        return ex.sub(ex.ggn, s)
    if kind == "ef":
        return ex.sub(ex.ef, s)
    J = ex.jac(order, s)
    return J if kind == "jac" else J.T


def scale_of(kind, ex):
    M = {"hess": ex.hess, "ggn": ex.ggn, "ef": ex.ef, "jac": ex.J, "jact": ex.J}[kind]
    s = float(M.abs().max())
    if kind == "hess":
        s = max(s, float(ex.ggn.abs().max()))
    return max(s, 1e-6) * 3


def setup(kind, c, split, s, rng, dtype, allow_dict=True, data=None, **kw):
    """Operator on a fresh model for a split and a parameter selection."""
    if data is None and kind not in ("jac", "jact"):
        c = nets.merged(rng, c)
    model = nets.build_model(c, dtype, nested=nets.nested(rng), inplace=rng.random() < 0.5)
    if rng.random() < 0.5:
        model.eval()
    params, shapes = risk.listed(c, model, s)
    risk.freeze_unlisted(model, params, rng)
    as_dict = allow_dict and rng.random() < 0.15
    if data is None:
        data = risk.wrap(rng, nets.batches(c, split, dtype, as_dict))
        if as_dict:
            kw["batch_size_fn"] = nets.batch_size_fn
    kw.setdefault("check_deterministic", rng.random() < 0.08)
    if rng.random() < 0.08:
        kw.setdefault("progressbar", True)
    op = make_op(kind, model, nets.build_loss(c), params, data, **kw)
    return op, shapes, model


def replay_kind(kind, item, adjoint=0.3):
    """Check ``item['splits']`` of the explored partitions, random selections."""
    c, ex = item["case"], risk.Expect(item["case"], item["recs"])
    rng = random.Random(item["seed"])
    n = 0
    pick = ex.splits if len(ex.splits) <= item["splits"] else rng.sample(ex.splits, item["splits"])
    sc = scale_of(kind, ex)
    for split in pick:
        dtype = torch.float64 if rng.random() < 0.75 else torch.float32
        s = rng.randrange(len(c["sels"]))
        kw = {}
        if c["nd"]:
            kw["num_data"] = c["nd"]
        elif rng.random() < 0.3:
            kw["num_data"] = len(c["x"])
        op, shapes, _ = setup(kind, c, split, s, rng, dtype, **kw)
        M = expected(kind, ex, s, split)
        zs = [(len(c["x"]), *c["zshape"])]
        ins = zs if kind == "jact" else shapes
        outs = zs if kind == "jac" else shapes
        what = f"{kind}(params={c['sels'][s]}, split={split}, num_data={c['nd'] or None}, {dtype})"
        n += check_map(op, M, ins, outs, dtype, rng, what, ks=(rng.choice([1, 2, 3, 5]),), scale=sc)
        if rng.random() < adjoint:
            n += check_map(op.adjoint(), M.T, outs, ins, dtype, rng, what + ".adjoint()",
                           ks=(rng.choice([1, 2, 3]),), scale=sc)
    return n, len(pick), rng, ex


def gen(ctx, archs=nets.ARCHS, reps=1, sizes=(1, 2, 3, 4, 6), second=False, losses=("mse", "ce", "bce"),
        nsel=3, tag="", nd=0.0):
    rng = ctx.rng("gen" + tag)
    cases = []
    for _ in range(reps):
        for arch in archs:
            for loss in losses:
                for red in ("mean", "sum"):
                    N = nets.many_data(rng, arch, sizes, ctx.thorough)
                    c = nets.make_case(rng, arch, loss, red, N, len(cases) + 1)
                    c["second"] = second or c["linear"]
                    c["sels"] = risk.rand_sels(rng, c, nsel)
                    c["contig"] = N > (6 if ctx.thorough else 3)
                    if rng.random() < nd:
                        c["nd"] = nets.other_count(rng, N)
                    cases.append(c)
    return cases


def run_kind(ctx, kind, fn, **kw):
    cases = gen(ctx, reps=8 if ctx.thorough else 2, **kw)
    recs = ctx.tlc("Risk", cases, weight=risk.weight)
    items = [
        {"task": kind, "case": c, "recs": recs[c["id"]], "seed": f"{ctx.seed}/{c['id']}",
         "splits": 40 if ctx.thorough else 8}
        for c in cases
    ]
    ctx.sample({"layers": cases[0]["layers"], "loss": cases[0]["loss"],
                "behaviour": recs[cases[0]["id"]][-1]})
    ctx.pmap(fn, items)
    ctx.notes["cases"] = ctx.notes.get("cases", 0) + len(cases)
