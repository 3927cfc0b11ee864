"""C12: KFAC represents the documented Kronecker-factored approximation."""

import random
from collections import Counter

import c04
import kfacs
import numpy
import torch
from cmp import check_map
from core import Mismatch, decode, fl


def replay(item):
    c = item["case"]
    ex = kfacs.KExpect(c, item["recs"])
    rng = random.Random(item["seed"])
    n = tr = 0
    for gi, g in enumerate(c["cfgs"]):
        M = ex.matrix(gi)
        pick = rng.sample(ex.splits, min(item["splits"], len(ex.splits)))
        for split in pick:
            dtype = torch.float64 if rng.random() < 0.8 else torch.float32
            op, shapes, _ = kfacs.build(c, g, split, rng, dtype)
            what = kfacs.describe(c, g, split, dtype)
            n += check_map(op, M, shapes, shapes, dtype, rng, what, ks=(rng.choice([1, 2, 3, 7]),))
            if rng.random() < 0.3:
                n += check_map(op.adjoint(), M, shapes, shapes, dtype, rng, what + ".adjoint()", ks=(2,))
            tr += 1
    return {"n": n, "traces": tr, "fails": []}


def dense(op):
    return (op @ torch.eye(op.shape[1], dtype=torch.float64)).detach().numpy()


def sampled(item):
    """Sampled labels: reproducible factors, each explained by labels of the right frequency."""
    c, gi = item["case"], item["cfg"]
    g = c["cfgs"][gi]
    rng = random.Random(item["seed"])
    recs = [r for r in item["recs"] if r["cfg"] == gi + 1]
    s = c04.LN2**2
    Ms = numpy.array([decode(r["M"]) for r in recs]) * s
    P = numpy.array([fl(r["prob"]) for r in recs])
    N = len(c["x"])
    split = c04.risk.rand_split(rng, N)
    what = kfacs.describe(c, g, split, "float64") + f" mc_samples={c['M']}"
    size = numpy.abs(Ms).max()
    if size == 0:
        return {"n": 0, "fails": []}
    # outcomes with the same matrix cannot be told apart
    ident, label = [], []
    for k, m in enumerate(Ms):
        same = [i for i in ident if numpy.abs(Ms[i] - m).max() <= 1e-6 * size]
        if not same:
            ident.append(k)
        label.append(same[0] if same else k)
    count, pooled = Counter(), Counter()
    for k, p in zip(label, P):
        pooled[k] += float(p)
    base = rng.randrange(2**30)
    T = item["seeds"]
    c = kfacs.nets.merged(rng, c)
    model = kfacs.nets.build_model(c, torch.float64, nested=kfacs.nets.nested(rng))
    data = kfacs.nets.batches(c, split)

    def make(seed):
        torch.manual_seed(rng.randrange(1000))
        kw = {} if c["M"] == 1 and rng.random() < 0.5 else {"mc_samples": c["M"]}
        if seed is not None:
            kw["seed"] = seed
        op, _, _ = kfacs.build(c, g, split, rng, torch.float64, model=model, data=data,
                               check_deterministic=rng.random() < 0.03, **kw)
        return op

    def find(op, seed):
        M = dense(op)
        d = numpy.abs(Ms - M).reshape(len(Ms), -1).max(axis=1)
        best = int(d.argmin())
        if d[best] > 1e-9 * size:
            raise Mismatch(f"{what}, seed {seed}: represented matrix {M.tolist()} is not that of any labels")
        return label[best], M

    for k in range(T):
        best, M = find(make(base + k), base + k)
        count[best] += 1
        if k % 25 == 0:  # same seed, same factors
            again = make(base + k)
            if rng.random() < 0.5:
                again.trace if rng.random() < 0.5 else again @ torch.ones(M.shape[1], dtype=torch.float64)
            if not numpy.array_equal(dense(again), M):
                raise Mismatch(f"{what}: two operators with seed {base + k} represent different matrices")
    if not numpy.array_equal(find(make(None), None)[1], find(make(c04.SEED), c04.SEED)[1]):
        raise Mismatch(f"{what}: the default seed is not {c04.SEED}")
    c04.fit(count, pooled, T, f"{what}: drawn labels")
    return {"n": T, "fails": [], "traces": T}


def sampled_mse(item):
    """Normal labels: the expected matrix is that of Fisher type 2; a single
    linear layer's gradient covariance is a sum of squares of normal vectors."""
    from scipy.stats import chi2, kstest

    c, g = item["case"], dict(item["case"]["cfgs"][0])
    ex = kfacs.KExpect(c, item["recs"])
    E = ex.matrix(0).numpy()
    rng = random.Random(item["seed"])
    N, M = len(c["x"]), c["M"]
    split = c04.risk.rand_split(rng, N)
    g["fisher"] = "mc"
    what = kfacs.describe(c, g, split, "float64") + f" mc_samples={M}"
    c = kfacs.nets.merged(rng, c)
    model = kfacs.nets.build_model(c, torch.float64)
    data = kfacs.nets.batches(c, split)
    base = rng.randrange(2**30)
    Fs = []
    for k in range(item["seeds"]):
        op, _, _ = kfacs.build(c, g, split, rng, torch.float64, model=model, data=data, check_deterministic=False,
                               seed=base + k, mc_samples=M)
        Fs.append(dense(op))
    Fs = numpy.array(Fs)
    T = len(Fs)
    sd = Fs.std(axis=0) / T**0.5
    off = numpy.abs(Fs.mean(axis=0) - E)
    if (off > 8 * sd + 1e-9 * numpy.abs(E).max()).any():
        raise Mismatch(f"{what}: average over {T} seeds {Fs.mean(axis=0).tolist()}, expected {E.tolist()}")
    if c["arch"] in ("linear", "linseq") and g["approx"] == "expand" and all(ly["k"] == "lin" for ly in c["layers"]):
        # one layer: trace of the matrix = trace of the expected one * chi2(rows) / rows
        rows = N * c["R"] * c["C"] * M
        t, e = Fs.trace(axis1=1, axis2=2), E.trace()
        p = kstest(t / e * rows, chi2(rows).cdf).pvalue
        if p < 1e-9:
            raise Mismatch(f"{what}: trace does not vary like that of {rows} normal labels (p = {p:.2g}, variance "
                           f"{t.var():.4g} instead of {2 * e * e / rows:.4g})")
    return {"n": T, "fails": [], "traces": T}


def rare(item):
    """One datum, very many draws: the factors are averages of the specified
    outcomes, within the deviation their exact law allows (Bernstein)."""
    c, gi = item["case"], item["cfg"]
    g = c["cfgs"][gi]
    rng = random.Random(item["seed"])
    recs = [r for r in item["recs"] if r["cfg"] == gi + 1]
    Ms = numpy.array([decode(r["M"]) for r in recs]) * c04.LN2**2
    P = numpy.array([fl(r["prob"]) for r in recs])[:, None, None]
    mean = (P * Ms).sum(0)
    V, big = (P * (Ms - mean) ** 2).sum(0), numpy.abs(Ms - mean).max(0)
    M, L = item["draws"], 24.0
    tol = numpy.sqrt(2 * L * V / M) + 2 * L * big / M
    op, _, _ = kfacs.build(c, g, [[1]], rng, torch.float64, check_deterministic=False, mc_samples=M,
                           seed=rng.randrange(2**30))
    F = dense(op)
    bad = numpy.abs(F - mean) > tol + 1e-9 * numpy.abs(mean).max()
    if bad.any():
        a, b = map(int, numpy.argwhere(bad)[0])
        raise Mismatch(f"{kfacs.describe(c, g, [[1]], 'float64')} mc_samples={M}: entry ({a}, {b}) is {F[a, b]:.6g}; the "
                       f"specified law has mean {mean[a, b]:.6g} and allows deviations up to {tol[a, b]:.3g}")
    return {"n": 1, "fails": [], "traces": 1}


def gen_rare(rng, archs):
    out = []
    for arch in archs:
        for loss in ("ce", "bce"):
            for _ in range(300):
                c = kfacs.make_case(rng, arch, loss, rng.choice(["mean", "sum"]), 1, len(out) + 1)
                c["M"] = 1
                kp = kfacs.kfac_params(c)
                sel = rng.sample(kp, rng.randint(1, len(kp)))
                if c04.outcomes(c) > 64 or sum(len(c["params"][k - 1]) for k in sel) > 10:
                    continue
                if not 1 / 1500 < c04.rarest(c) < 1 / 50:
                    continue
                c["cfgs"] = [{"sel": sel, "fisher": "mc", "approx": rng.choice(["expand", "reduce"]),
                              "sep": rng.random() < 0.5, "nd": 0 if rng.random() < 0.75 else 3}]
                out.append(c)
                break
    return out


def gen_sampled(rng, ctx):
    cases, mse = [], []
    archs = ["mlp", "linear", "broad", "deep", "res", "conv", "linseq", "seq", "grid", "convout", "seqconv"]
    limit = 150 if ctx.thorough else 40
    for arch in archs:
        for loss in ("ce", "bce", "mse"):
            for _ in range(400):
                M = rng.choice([1, 1, 2, 3])
                c = kfacs.make_case(rng, arch, loss, rng.choice(["mean", "sum"]), rng.choice([1, 2, 2, 3]), 0)
                c["M"] = M
                if loss != "mse" and (c04.outcomes(c) > limit or kfacs.nets.forward_ints(c).abs().max() > 3):
                    continue
                kp = kfacs.kfac_params(c)
                sel = list(kp) if rng.random() < 0.5 else rng.sample(kp, rng.randint(1, len(kp)))
                if sum(len(c["params"][k - 1]) for k in sel) > 10:
                    continue
                c["cfgs"] = [{"sel": sel, "fisher": "mc", "approx": a, "sep": rng.random() < 0.5,
                              "nd": 0 if rng.random() < 0.75 else kfacs.nets.other_count(rng, len(c["x"]))}
                             for a in (("expand", "reduce") if c["R"] > 1 else (rng.choice(["expand", "reduce"]),))]
                out = mse if loss == "mse" else cases
                c["id"] = len(out) + 1
                if loss == "mse":
                    c["cfgs"] = [dict(c["cfgs"][0], fisher="type2")]
                    c["dets"], c["contig"] = False, True
                    if c["R"] > 1 and (c["cfgs"][0]["approx"] == "reduce" or not kfacs.positionwise(c)):
                        continue  # loss terms meet: no equality with type 2
                out.append(c)
                break
    return cases, mse


def run(ctx):
    cases = kfacs.gen(ctx, reps=8 if ctx.thorough else 3)
    recs = ctx.tlc("Kfac", cases, weight=kfacs.weight)
    items = [{"task": "kfac", "case": c, "recs": recs[c["id"]], "seed": f"{ctx.seed}/{c['id']}",
              "splits": 12 if ctx.thorough else 3} for c in cases]
    ctx.sample({"layers": cases[0]["layers"], "cfg": cases[0]["cfgs"][0], "split": recs[cases[0]["id"]][-1]})
    ctx.pmap(replay, items)
    # sampled labels
    rng = ctx.rng("sampled")
    for _ in range(3 if ctx.thorough else 1):
        scs, mse = gen_sampled(rng, ctx)
        recs = ctx.tlc("KfacDraws", scs, weight=c04.outcomes)
        ctx.pmap(sampled, [{"task": "sampled", "case": c, "cfg": i, "recs": recs[c["id"]], "seed": f"{ctx.seed}/s{c['id']}/{i}",
                            "seeds": 1500 if ctx.thorough else 300} for c in scs for i in range(len(c["cfgs"]))], timeout=600)
        recs = ctx.tlc("Kfac", mse, weight=kfacs.weight)
        ctx.pmap(sampled_mse, [{"task": "sampledmse", "case": c, "recs": recs[c["id"]], "seed": f"{ctx.seed}/m{c['id']}",
                                "seeds": 1500 if ctx.thorough else 300} for c in mse], timeout=600)
        rs = gen_rare(rng, ["mlp", "linear", "deep", "conv", "linseq", "broad"])
        recs = ctx.tlc("KfacDraws", rs, weight=c04.outcomes)
        ctx.pmap(rare, [{"task": "rare", "case": c, "cfg": 0, "recs": recs[c["id"]], "seed": f"{ctx.seed}/r{c['id']}",
                         "draws": 40000 if ctx.thorough else 10000} for c in rs], timeout=600)
    ctx.notes["configurations"] = sum(len(c["cfgs"]) for c in cases)
