"""C01: Hessian products equal the second derivative of the empirical risk."""

import random

import live
import nets
import risk
import torch
from cmp import check_map
from core import Mismatch

PROP = "C01"


def gen(ctx, archs=nets.ARCHS, reps=1, sizes=(1, 2, 3, 4), second=True, tag=""):
    rng = ctx.rng("gen" + tag)
    cases = []
    for rep in range(reps):
        for arch in archs:
            for loss in ("mse", "ce", "bce"):
                for red in ("mean", "sum"):
                    N = nets.many_data(rng, arch, sizes, ctx.thorough)
                    c = nets.make_case(rng, arch, loss, red, N, len(cases) + 1)
                    c["second"] = second
                    c["sels"] = risk.rand_sels(rng, c, 3)
                    comps = risk.compositions(len(c["params"]))
                    c["blocks"] = rng.sample(comps, min(6, len(comps)))
                    c["contig"] = N > (6 if ctx.thorough else 3)
                    c["nd"] = nets.other_count(rng, N) if rng.random() < 0.2 else 0
                    cases.append(c)
    return cases


def replay(item):
    from curvlinops import HessianLinearOperator

    c, ex = item["case"], risk.Expect(item["case"], item["recs"])
    rng = random.Random(item["seed"])
    n = 0
    fails = []
    dtype = torch.float64 if rng.random() < 0.75 else torch.float32
    loss = nets.build_loss(c)
    M0 = ex.hess
    scale = max(float(ex.hess.abs().max()), float(ex.ggn.abs().max()), 1e-6) * 3

    def op_for(model, params, split, **kw):
        as_dict = rng.random() < 0.15
        data = nets.batches(c, split, dtype, as_dict)
        if as_dict:
            kw["batch_size_fn"] = nets.batch_size_fn
        return HessianLinearOperator(
            model, loss, params, risk.wrap(rng, data), check_deterministic=rng.random() < 0.1, **kw
        )

    splits = ex.splits
    pick = splits if len(splits) <= item["splits"] else rng.sample(splits, item["splits"])
    plain = c
    for split in pick:
        c = nets.merged(rng, plain)
        model = nets.build_model(c, dtype, nested=nets.nested(rng))
        s = rng.randrange(len(c["sels"]))
        params, shapes = risk.listed(c, model, s)
        risk.freeze_unlisted(model, params, rng)
        kw = {}
        if c["nd"]:
            kw["num_data"] = c["nd"]
        elif rng.random() < 0.3:
            kw["num_data"] = len(c["x"])
        op = op_for(model, params, split, **kw)
        n += check_map(
            op, ex.sub(M0, s), shapes, shapes, dtype, rng,
            f"Hessian(params={c['sels'][s]}, split={split}, num_data={c['nd'] or None}, {dtype})", ks=(rng.choice([1, 2, 3, 5]),),
            scale=scale,
        )
    for b, sizes in enumerate(plain["blocks"]):
        c = nets.merged(rng, plain)
        model = nets.build_model(c, dtype)
        params, shapes = risk.listed(c, model, 0)
        split = rng.choice(splits)
        op = op_for(model, params, split, block_sizes=list(sizes), num_data=c["nd"] or None)
        n += check_map(
            op, ex.blocked(M0, b), shapes, shapes, dtype, rng,
            f"block Hessian(params={c['sels'][0]}, block_sizes={sizes}, split={split}, {dtype})",
            ks=(rng.choice([1, 2, 3]),), scale=scale,
        )
        # the adjoint of the block-diagonal operator is the same matrix
        A = op.adjoint() @ torch.eye(op.shape[0], dtype=dtype)
        if not torch.allclose(A.double(), ex.blocked(M0, b), atol=scale * (1e-8 if dtype == torch.float64 else 1e-3)):
            raise Mismatch(f"adjoint of block Hessian {sizes} differs")
        n += 1
    return {"n": n, "traces": len(pick) + len(c["blocks"]), "fails": fails}


def run(ctx):
    cases = gen(ctx, reps=6 if ctx.thorough else 2)
    recs = ctx.tlc("Risk", cases, weight=risk.weight)
    items = [
        {"task": "hess", "case": c, "recs": recs[c["id"]], "seed": f"{ctx.seed}/{c['id']}",
         "splits": 40 if ctx.thorough else 5}
        for c in cases
    ]
    ctx.sample({"layers": cases[0]["layers"], "loss": cases[0]["loss"], "splits": recs[cases[0]["id"]][-1]})
    ctx.pmap(replay, items)
    ctx.notes["cases"] = len(cases)
    live.run(ctx, ["hess", "blocks"], second=True)
