"""C07: parameter list order and choice only permute and select rows/columns."""

import itertools
import random

import kfacs
import live
import nets
import risk
import riskops
import torch
from cmp import check_map, close


def selections(rng, n, limit):
    """All ordered selections of 1..n parameters if few, else a random sample."""
    every = [list(p) for k in range(1, n + 1) for p in itertools.permutations(range(1, n + 1), k)] if n <= 4 else None
    if every is not None and len(every) <= limit:
        return every
    out = [list(range(n, 0, -1))]
    while len(out) < limit:
        k = rng.choice([1, 2, n - 1, n, n])
        s = rng.sample(range(1, n + 1), max(1, min(n, k)))
        if s not in out:
            out.append(s)
    return out


def replay(item):
    import curvlinops as cl

    c, ex = item["case"], risk.Expect(item["case"], item["recs"])
    rng = random.Random(item["seed"])
    n = 0
    ref = {}
    for s in range(len(c["sels"])):
        kinds = ["hess", "ggn", "ef", "jac", "jact"]
        for kind in kinds if item["all"] else rng.sample(kinds, 3):
            split = rng.choice(ex.splits)
            dtype = torch.float64 if rng.random() < 0.85 else torch.float32
            op, shapes, model = riskops.setup(kind, c, split, s, rng, dtype)
            M = riskops.expected(kind, ex, s, split)
            zs = [(len(c["x"]), *c["zshape"])]
            ins = zs if kind == "jact" else shapes
            outs = zs if kind == "jac" else shapes
            n += check_map(op, M, ins, outs, dtype, rng, f"{kind}(params={c['sels'][s]}, split={split})",
                           ks=(2,), vectors=False, scale=riskops.scale_of(kind, ex))
        # sampled Fisher: the same labels, whatever parameters are listed
        if item["mc"]:
            split = c["mcsplit"]
            model = nets.build_model(c)
            data = nets.batches(c, split)
            kw = dict(seed=7, mc_samples=2, check_deterministic=False)
            if not ref:
                full = model.case_params()
                op = cl.FisherMCLinearOperator(model, nets.build_loss(c), full, data, **kw)
                ref["M"] = op @ torch.eye(op.shape[1], dtype=torch.float64)
            params, shapes = risk.listed(c, model, s)
            op = cl.FisherMCLinearOperator(model, nets.build_loss(c), params, data, **kw)
            idx = ex.sels[s]
            close(op @ torch.eye(op.shape[1], dtype=torch.float64), ref["M"][idx][:, idx],
                  f"FisherMC(params={c['sels'][s]})", scale=float(ref["M"].abs().max()) + 1e-6)
            n += 1
    return {"n": n, "traces": len(c["sels"]), "fails": []}


def replay_kfac(item):
    c = item["case"]
    ex = kfacs.KExpect(c, item["recs"])
    rng = random.Random(item["seed"])
    n = 0
    for gi, g in enumerate(c["cfgs"]):
        M = ex.matrix(gi)
        split = rng.choice(ex.splits)
        dtype = torch.float64 if rng.random() < 0.85 else torch.float32
        model = nets.build_model(c, dtype, nested=nets.nested(rng))
        ps = model.case_params()
        risk.freeze_unlisted(model, [ps[k - 1] for k in g["sel"]], rng)
        op, shapes, _ = kfacs.build(c, g, split, rng, dtype, model=model)
        n += check_map(op, M, shapes, shapes, dtype, rng, kfacs.describe(c, g, split, dtype), ks=(2,))
    return {"n": n, "traces": len(c["cfgs"]), "fails": []}


def run(ctx):
    th = ctx.thorough
    cases = riskops.gen(ctx, reps=3 if th else 1, sizes=(1, 2), second=True, nsel=1)
    rng = ctx.rng("sels")
    for c in cases:
        c["sels"] = selections(rng, len(c["params"]), 70 if th else 14)
        c["mcsplit"] = risk.rand_split(rng, len(c["x"]))
    recs = ctx.tlc("Risk", cases, weight=risk.weight)
    items = [{"task": "risk", "case": c, "recs": recs[c["id"]], "seed": f"{ctx.seed}/{c['id']}", "all": th,
              "mc": True} for c in cases]
    ctx.sample({"params": cases[0]["pshapes"], "selections": cases[0]["sels"][:5]})
    ctx.pmap(replay, items)
    ctx.notes["selections"] = sum(len(c["sels"]) for c in cases)

    # several operators with their own selections on one model
    live.run(ctx, ["hess", "ggn", "ef", "jac", "jact"], ops=4, losses=("mse", "ce"), second=True)

    kc = kfacs.gen(ctx, reps=3 if th else 1, sizes=(1, 2), ncfg=3)
    for c in kc:
        kp = kfacs.kfac_params(c)
        base = c["cfgs"][0]
        cfgs = []
        for sel in selections(rng, len(kp), 40 if th else 9):
            g = dict(rng.choice(c["cfgs"]) if rng.random() < 0.6 else base)
            cfgs.append(dict(g, sel=[kp[i - 1] for i in sel], sep=rng.random() < 0.5, nd=0))
        c["cfgs"] = cfgs
        c["dets"] = False
        c["contig"] = True
    krecs = ctx.tlc("Kfac", kc, weight=kfacs.weight)
    kitems = [{"task": "kfac", "case": c, "recs": krecs[c["id"]], "seed": f"{ctx.seed}/k{c['id']}"} for c in kc]
    ctx.pmap(replay_kfac, kitems)
    ctx.notes["kfac_selections"] = sum(len(c["cfgs"]) for c in kc)
