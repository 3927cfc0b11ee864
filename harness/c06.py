"""C06: data-set quantities do not depend on the split into mini-batches."""

import random
from collections import UserDict

import kfacs
import live
import nets
import risk
import riskops
import torch
from cmp import close, rand_int, same_list, split_list
from torch.utils.data import DataLoader, TensorDataset


def sources(c, split, dtype, rng):
    """The split as one of several kinds of data source; (data, kwargs)."""
    bs = nets.batches(c, split, dtype)
    kind = rng.choice(["list", "list", "iter", "sized", "dict", "userdict", "loader", "tuple", "sampler", "drop"]
                      if not c.get("merge") else ["list", "iter", "sized", "tuple", "dict", "userdict"])
    if kind == "iter":
        return risk.Source(bs), {}
    if kind == "sized":
        return risk.SizedSource(bs), {}
    if kind == "tuple":
        return tuple(bs), {}
    if kind == "dict":
        return nets.batches(c, split, dtype, as_dict=True), {"batch_size_fn": nets.batch_size_fn}
    if kind == "userdict":
        return [(UserDict(x=x), y) for x, y in bs], {"batch_size_fn": nets.batch_size_fn}
    if kind == "sampler":
        # the data set of the loader holds points that are never presented
        N = len(c["x"])
        idx = [i - 1 for b in split for i in b]
        at = rng.sample(range(N + rng.randint(1, 4)), N)  # position of every point
        X = torch.zeros(max(at) + 2, *c["xshape"], dtype=dtype)
        Y = nets.targets(c, [1] * (max(at) + 2), dtype)
        X[at], Y[at] = nets.inputs(c, range(1, N + 1), dtype), nets.targets(c, range(1, N + 1), dtype)
        assert sorted(idx) == list(range(N))
        return DataLoader(TensorDataset(X, Y), batch_sampler=[[at[i - 1] for i in b] for b in split]), {}
    if kind == "drop":
        k = len(split[0])
        if k > 1 and all(len(b) == k for b in split):
            X = torch.cat([x for x, _ in bs] + [bs[0][0][:1]])
            Y = torch.cat([y for _, y in bs] + [bs[0][1][:1]])
            return DataLoader(TensorDataset(X, Y), batch_size=k, drop_last=True), {}
    if kind == "loader":
        sizes = [len(b) for b in split]
        k = sizes[0]
        if all(s == k for s in sizes[:-1]) and sizes[-1] <= k:
            X = torch.cat([x for x, _ in bs])
            Y = torch.cat([y for _, y in bs])
            return DataLoader(TensorDataset(X, Y), batch_size=k), {}
    return bs, {}


def grad_loss(op, ex, s, c, shapes, what, dtype):
    g, ls = op.gradient_and_loss()
    G = ex.grad[ex.sels[s]]
    sc = max(float(ex.grad.abs().max()), 1e-3)
    same_list(g, split_list(G, [tuple(x) for x in shapes]), what + " gradient", scale=sc)
    close(ls, torch.tensor(ex.loss, dtype=torch.float64), what + " loss", scale=max(abs(ex.loss), 1e-3))


def replay(item):
    c, ex = item["case"], risk.Expect(item["case"], item["recs"])
    rng = random.Random(item["seed"])
    n = 0
    pick = ex.splits if len(ex.splits) <= item["splits"] else rng.sample(ex.splits, item["splits"])
    for split in pick:
        kinds = ["hess", "ggn", "ef"]
        for kind in kinds if rng.random() < 0.5 else [rng.choice(kinds)]:
            dtype = torch.float64 if rng.random() < 0.85 else torch.float32
            s = rng.randrange(len(c["sels"]))
            cm = nets.merged(rng, c)
            data, kw = sources(cm, split, dtype, rng)
            if c["nd"]:
                kw["num_data"] = c["nd"]
            op, shapes, _ = riskops.setup(kind, cm, split, s, rng, dtype, data=data, **kw)
            M = riskops.expected(kind, ex, s, split)
            X = rand_int(rng, (M.shape[1], 2), dtype)
            what = f"{kind}({c['arch']}, {c['loss']}-{c['red']}, split={split}, num_data={c['nd'] or None}, {dtype})"
            sc = riskops.scale_of(kind, ex)
            close(op @ X, M @ X.double(), what, scale=sc)
            grad_loss(op, ex, s, c, shapes, what, dtype)
            n += 2
    return {"n": n, "traces": len(pick), "fails": []}


def replay_kfac(item):
    c = item["case"]
    ex = kfacs.KExpect(c, item["recs"])
    rng = random.Random(item["seed"])
    n = 0
    pick = ex.splits if len(ex.splits) <= item["splits"] else rng.sample(ex.splits, item["splits"])
    for gi, g in enumerate(c["cfgs"]):
        M = ex.matrix(gi)
        for split in pick:
            dtype = torch.float64 if rng.random() < 0.85 else torch.float32
            cm = nets.merged(rng, c)
            data, kw = sources(cm, split, dtype, rng)
            op, shapes, _ = kfacs.build(cm, g, split, rng, dtype, data=data, **kw)
            X = rand_int(rng, (M.shape[1], 2), dtype)
            close(op @ X, M @ X.double(), kfacs.describe(c, g, split, dtype),
                  scale=float(M.abs().max()) * 3)
            n += 1
    return {"n": n, "traces": len(pick) * len(c["cfgs"]), "fails": []}


def run(ctx):
    th = ctx.thorough
    cases = riskops.gen(ctx, reps=4 if th else 1, sizes=(2, 3, 3, 4, 5), second=True, nsel=2, nd=True)
    for c in cases:
        c["contig"] = len(c["x"]) > 3 and not (th and len(c["x"]) == 4)
    recs = ctx.tlc("Risk", cases, weight=risk.weight)
    items = [{"task": "risk", "case": c, "recs": recs[c["id"]], "seed": f"{ctx.seed}/{c['id']}",
              "splits": 80 if th else 16} for c in cases]
    ctx.sample({"layers": cases[0]["layers"], "loss": cases[0]["loss"], "behaviour": recs[cases[0]["id"]][-1]})
    ctx.pmap(replay, items)

    live.run(ctx, ["hess", "ggn", "ef"], ns=3, second=True)

    kc = kfacs.gen(ctx, reps=3 if th else 1, sizes=(2, 3, 4), ncfg=2, archs=[
        "mlp", "deep", "seq", "linseq", "conv", "groupconv", "padconv", "grid", "gate", "seqconv"])
    for c in kc:
        c["contig"] = len(c["x"]) > 3
        c["dets"] = False
    krecs = ctx.tlc("Kfac", kc, weight=kfacs.weight)
    kitems = [{"task": "kfac", "case": c, "recs": krecs[c["id"]], "seed": f"{ctx.seed}/k{c['id']}",
               "splits": 30 if th else 8} for c in kc]
    ctx.pmap(replay_kfac, kitems)
    ctx.notes["cases"] = len(cases) + len(kc)
