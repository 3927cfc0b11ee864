"""Operators follow the current parameters, data and partition (Live.tla)."""

import copy
import random

import nets
import numpy
import risk
import riskops
import torch
from cmp import close, rand_int, same_list, split_list

QS = ["eye", "vec", "mat", "list", "adj", "scipy", "gl"]


def sibling(rng, c, params, data, zmax=7):
    """A copy of a case with new parameter values and/or data."""
    for _ in range(300):
        d = copy.deepcopy(c)
        if params:
            for p in d["params"]:
                for i in range(len(p)):
                    p[i] = rng.randint(-1, 2)
        if data:
            for row in d["x"]:
                for i in range(len(row)):
                    row[i] = rng.randint(-2, 2)
            for row in d["y"]:
                for i in range(len(row)):
                    row[i] = (rng.randint(1, c["C"]) if c["loss"] == "ce" else
                              rng.randint(0, 1) if c["loss"] == "bce" else rng.randint(-2, 2))
        z = nets.forward_ints(d)
        if z.abs().max() > (zmax if c["loss"] != "mse" else 300) or z.abs().max() == 0:
            continue
        return d
    return None


def versions(rng, c):
    """{(pv, dv): case} for two versions of the parameters and of the data."""
    for _ in range(50):
        p = sibling(rng, c, True, False)
        d = sibling(rng, c, False, True)
        if p is None or d is None:
            continue
        b = copy.deepcopy(p)
        b["x"], b["y"] = d["x"], d["y"]
        z = nets.forward_ints(b)
        if c["loss"] != "mse" and (z.abs().max() > 7 or z.abs().max() == 0):
            continue
        return {(1, 1): c, (2, 1): p, (1, 2): d, (2, 2): b}
    return None


class Data:
    """Data source over the current version, in one of several manners."""

    def __init__(self, mode, dtype):
        self.mode, self.dtype, self.items = mode, dtype, None

    def set(self, c, split):
        self.case, self.split = c, split
        new = nets.batches(c, split, self.dtype)
        if self.mode == "inplace" and self.items is not None and [x.shape for x, _ in self.items] == [
                x.shape for x, _ in new]:
            for (x, y), (a, b) in zip(self.items, new):
                x.copy_(a)
                y.copy_(b)
        elif self.items is None:
            self.items = new
        else:
            self.items[:] = new
        return self.items if self.mode in ("inplace", "list") else self

    def __iter__(self):
        if self.mode == "fresh":
            for b in nets.batches(self.case, self.split, self.dtype):
                yield b
        else:
            yield from self.items


def set_params(model, c):
    with torch.no_grad():
        for p, vals in zip(model.case_params(), c["params"]):
            p.copy_(torch.tensor(vals, dtype=p.dtype).reshape(p.shape))


def mc_op(model, c, params, data):
    import curvlinops as cl

    return cl.FisherMCLinearOperator(model, nets.build_loss(c), params, data, seed=5, mc_samples=2,
                                     check_deterministic=False)


def replay(item):
    exs = {tuple(k): risk.Expect(c, r) for k, c, r in item["versions"]}
    base = exs[1, 1].case
    rng = random.Random(item["seed"])
    n = 0
    for h in item["hists"]:
        dtype = torch.float64 if rng.random() < 0.85 else torch.float32
        model = nets.build_model(base, dtype, nested=nets.nested(rng))
        # a Jacobian's rows and the sampled labels follow the data order
        N = len(base["x"])
        splits = [risk.rand_split(rng, N) for _ in range(3)]
        data = Data(rng.choice(["inplace", "list", "fresh", "source"]), dtype)
        source = data.set(base, splits[0])
        pv = dv = sv = 1
        ops = {}
        log = []
        for e in h:
            log.append({k: v for k, v in e.items() if k not in ("pv", "dv", "sv")})
            if e["a"] == "make":
                kind = rng.choice(item["kinds"])
                s = rng.randrange(len(base["sels"]))
                params, shapes = risk.listed(base, model, s)
                kw = {"check_deterministic": rng.random() < 0.1}
                b = None
                if kind == "blocks":
                    s, b = 0, rng.randrange(len(base["blocks"]))
                    params, shapes = risk.listed(base, model, 0)
                    kw["block_sizes"] = list(base["blocks"][b])
                op = (mc_op(model, base, params, source) if kind == "mc" else
                      riskops.make_op("hess" if kind == "blocks" else kind, model, nets.build_loss(base), params,
                                      source, **kw))
                ops[e["o"]] = (op, kind, s, shapes, b, params)
            elif e["a"] == "params":
                pv = e["v"]
                set_params(model, exs[pv, dv].case)
            elif e["a"] in ("data", "split"):
                dv, sv = (e["v"], sv) if e["a"] == "data" else (dv, e["v"])
                data.set(exs[pv, dv].case, splits[sv - 1])
            elif e["a"] == "mode":
                model.train(not model.training)
            elif e["a"] == "forward":
                model(nets.inputs(base, [1], dtype))
            elif e["a"] == "backward":
                for X, y in data:
                    out = nets.build_loss(base)(model(X), y)
                    if out.requires_grad:
                        out.backward()
            else:
                assert (e["pv"], e["dv"], e["sv"]) == (pv, dv, sv)
                op, kind, s, shapes, b, params = ops[e["o"]]
                ex = exs[pv, dv]
                split = splits[sv - 1]
                what = f"after {log}: {kind}(params={base['sels'][s]}, data source {data.mode}, {dtype})"
                if kind == "mc":
                    fresh = mc_op(model, base, params, list(data))
                    M = (fresh @ torch.eye(fresh.shape[1], dtype=dtype)).double()
                    sc = float(M.abs().max()) + 1e-6
                elif kind == "blocks":
                    M, sc = ex.blocked(ex.hess, b), riskops.scale_of("hess", ex)
                else:
                    M, sc = riskops.expected(kind, ex, s, split), riskops.scale_of(kind, ex)
                ask(op, QS[e["q"] - 1], M, kind, ex, s, shapes, base, dtype, rng, sc, what)
                n += 1
    return {"n": n, "traces": len(item["hists"]), "fails": []}


def ask(op, q, M, kind, ex, s, shapes, c, dtype, rng, sc, what):
    zs = [(len(c["x"]), *c["zshape"])]
    ins = zs if kind == "jact" else [tuple(x) for x in shapes]
    outs = zs if kind == "jac" else [tuple(x) for x in shapes]
    what = f"{what} {q}"
    if q == "gl" and kind in ("jac", "jact"):
        q = "eye"
    if q == "eye":
        close(op @ torch.eye(M.shape[1], dtype=dtype), M, what, scale=sc)
    elif q in ("vec", "mat"):
        X = rand_int(rng, (M.shape[1],) if q == "vec" else (M.shape[1], rng.choice([1, 2, 3])), dtype)
        close(op @ X, M @ X.double(), what, scale=sc)
    elif q == "list":
        X = rand_int(rng, (M.shape[1], rng.choice([1, 2])), dtype)
        same_list(op @ split_list(X, ins), split_list(M @ X.double(), outs), what, sc)
    elif q == "adj":
        X = rand_int(rng, (M.shape[0], 2), dtype)
        close(op.adjoint() @ X, M.T @ X.double(), what, scale=sc)
    elif q == "scipy":
        X = rand_int(rng, (M.shape[1], 2), torch.float64).numpy()
        got = numpy.asarray(op.to_scipy() @ X)
        close(torch.from_numpy(got), M @ torch.from_numpy(X), what, scale=sc,
              tol=1e-9 if dtype == torch.float64 else 2e-4)
    else:
        g, ls = op.gradient_and_loss()
        same_list(g, split_list(ex.grad[ex.sels[s]], [tuple(x) for x in shapes]), what,
                  max(float(ex.grad.abs().max()), 1e-3))
        close(ls, torch.tensor(ex.loss, dtype=torch.float64), what + " loss", scale=max(abs(ex.loss), 1e-3))


def run(ctx, kinds, count=8, ops=2, ns=3, nd=2, losses=("mse", "ce", "bce"), second=False):
    """Histories for operators of the given kinds, ``count`` networks."""
    rng = ctx.rng("live")
    t = 4 if ctx.thorough else 1
    groups = []
    cid = 1
    pairs = [(lo, r) for lo in losses for r in ("mean", "sum")]
    while len(groups) < count * t:
        i = len(groups)
        loss, red = pairs[(i + ctx.seed) % len(pairs)]
        c = nets.make_case(rng, nets.ARCHS[(i * 3 + ctx.seed) % len(nets.ARCHS)], loss, red, rng.choice([2, 3]), 0)
        c["second"], c["contig"] = second or c["linear"], True
        c["sels"] = risk.rand_sels(rng, c, 2)
        comps = risk.compositions(len(c["params"]))
        c["blocks"] = rng.sample(comps, min(3, len(comps)))
        vs = versions(rng, c)
        if vs is None:
            continue
        for v in vs.values():
            v["id"] = cid
            cid += 1
        groups.append(vs)
    recs = ctx.tlc("Risk", [v for g in groups for v in g.values()], weight=risk.weight)
    depth = 9
    lives = [{"id": i + 1, "ops": ops, "qs": len(QS), "np": 2, "nd": nd, "ns": ns, "depth": depth}
             for i in range(len(groups))]
    hists = ctx.simulate("Live", lives, 30 * t, depth)
    items = [{"task": "live", "kinds": list(kinds), "seed": f"{ctx.seed}/live{i}",
              "versions": [[list(k), v, recs[v["id"]]] for k, v in g.items()],
              "hists": [r["hist"] for r in hists.get(i + 1, [])]} for i, g in enumerate(groups)]
    ctx.sample({"history": items[0]["hists"][0]}, limit=4)
    ctx.pmap(replay, items)
    ctx.notes["live_histories"] = sum(len(x["hists"]) for x in items)
