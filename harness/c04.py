"""C04: the Monte-Carlo Fisher is a fixed, seeded, correctly distributed label sample."""

import copy
import itertools
import math
import random
from collections import Counter

import hutch
import nets
import numpy
import risk
import torch
from cmp import close, rand_int, same_list, split_list
from core import Mismatch, decode, fl

LN2 = math.log(2.0)
SMALL = ["mlp", "linear", "deep", "res", "scalar", "broad"]
SEQ = ["grid", "linseq", "convout", "seq"]
SEED = 2147483647  # documented default


def options(c):
    return c["C"] ** c["R"] if c["loss"] == "ce" else 2 ** (c["R"] * c["C"])


def outcomes(c):
    n = options(c)
    return math.comb(c["M"] + n - 1, c["M"]) ** len(c["x"])


def make(rng, arch, loss, red, M, sizes, limit, maxD=8, cid=0, zmax=None):
    for _ in range(400):
        N = rng.choice(sizes)
        c = nets.make_case(rng, arch, loss, red, N, cid, zmax=zmax or (2 if loss == "bce" else 3))
        c["M"], c["second"] = M, False
        if loss == "mse" and N * c["R"] * c["C"] > 6:
            continue
        if loss != "mse" and outcomes(c) > limit:
            continue
        n = len(c["params"])
        sel = rng.sample(range(1, n + 1), rng.randint(1, n)) if rng.random() < 0.5 else list(range(1, n + 1))
        while sel and sum(len(c["params"][k - 1]) for k in sel) > maxD:
            sel.pop(rng.randrange(len(sel)))
        if not sel:
            continue
        c["sel"] = sel
        c["sels"] = [sel]
        c["nd"] = 0 if rng.random() < 0.7 else nets.other_count(rng, N)
        if loss == "mse" and not full_rank(c):
            continue
        return c
    return None


def full_rank(c):
    """Can the gradients be recovered from the Jacobian? (decides only whether a case is used)"""
    left, right = float_jac(c, -1), float_jac(c, 1)
    if numpy.abs(left - right).max() > 0.05 * (1 + numpy.abs(left).max()):
        return False  # close to a kink
    s = numpy.linalg.svd((left + right) / 2, compute_uv=False)
    return len(s) == left.shape[0] and s[-1] > 0.05 * s[0]


def float_jac(c, sign):
    base = nets.forward_ints(c).double().flatten()
    cols = []
    for k in c["sel"]:
        for e in range(len(c["params"][k - 1])):
            c2 = copy.deepcopy(c)
            c2["params"][k - 1][e] += sign * 2.0**-10
            cols.append(((nets.forward_ints(c2).double().flatten() - base) * sign * 2.0**10).numpy())
    return numpy.array(cols).T


def scale(c):
    return 1.0 if c["loss"] == "mse" else LN2**2


def operator(c, model, data, seed, rng, **kw):
    import curvlinops as cl

    params, shapes = risk.listed(c, model, 0)
    if seed != SEED or rng.random() < 0.3:
        kw["seed"] = seed
    if c["M"] != 1 or rng.random() < 0.3:
        kw["mc_samples"] = c["M"]
    if c["nd"]:
        kw["num_data"] = c["nd"]
    kw.setdefault("check_deterministic", rng.random() < 0.15)
    return cl.FisherMCLinearOperator(model, nets.build_loss(c), params, data, **kw), shapes


class Boom(Exception):
    pass


class Faulty(torch.nn.Module):
    """Raises in the forward pass when told to."""

    def __init__(self, inner):
        super().__init__()
        self.inner, self.left, self.index = inner, None, inner.index

    def case_params(self):
        return self.inner.case_params()

    def forward(self, x):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise Boom()
        return self.inner(x)


def record(item):
    """One history over several operators on the same model."""
    c = item["case"]
    rng = random.Random(item["seed"])
    N = len(c["x"])
    c = nets.merged(rng, c)
    model = Faulty(nets.build_model(c, torch.float64, nested=nets.nested(rng)))
    risk.freeze_unlisted(model, risk.listed(c, model, 0)[0], rng)
    D = sum(len(c["params"][k - 1]) for k in c["sel"])
    pool = [SEED, 0, 1, rng.randrange(2**32), rng.randrange(2**31)]
    seeds_ = rng.sample(pool, 2)
    nsplit = 1 if N == 1 else rng.choice([1, 2])
    splits = []
    while len(splits) < nsplit:
        s = risk.rand_split(rng, N)
        if s not in splits:
            splits.append(s)
    datas = [risk.wrap(rng, nets.batches(c, s)) for s in splits]
    ops = []
    for _ in range(3):
        s, d = rng.choice(seeds_), rng.randrange(nsplit)
        torch.manual_seed(rng.randrange(1000))
        op, shapes = operator(c, model, datas[d], s, rng)
        ops.append((op, f"{s}/{d}"))
    ver, events, known = 0, [], set()
    for _ in range(item["length"]):
        op, key = rng.choice(ops)
        key = f"{key}/{ver}"
        r = rng.random()
        if r < 0.12 and len(c["pv"]) > 1:
            ver = rng.randrange(len(c["pv"]))
            with torch.no_grad():
                for p, v in zip(model.case_params(), c["pv"][ver]):
                    p.copy_(torch.tensor(v, dtype=p.dtype).reshape(p.shape))
            continue
        if r < 0.24:
            model.left = rng.randint(0, 1)
            try:
                op @ torch.ones(D, dtype=torch.float64)
            except Boom:
                events.append({"e": "fail"})
            model.left = None
            continue
        if r < 0.36:  # others use the global random state
            torch.manual_seed(rng.randrange(1000))
            torch.rand(rng.randint(1, 4))
            continue
        first = c["loss"] == "mse" and key not in known
        k = D if first else rng.choice([1, 1, 2, 3])
        X = torch.eye(D, dtype=torch.float64) if first else rand_int(rng, (D, k), torch.float64)
        known.add(key)
        form = rng.choice(["flat", "list"]) if k > 1 else rng.choice(["flat", "list", "vec", "veclist", "adj"])
        A = op.adjoint() if form == "adj" else op
        arg = X[:, 0] if form.startswith("vec") else X
        if form in ("list", "veclist"):
            Y = A @ split_list(arg, [tuple(s) for s in shapes])
            Y = torch.cat([y.reshape((math.prod(s), -1)) for y, s in zip(Y, shapes)])
        else:
            Y = A @ arg
        Y = Y.reshape(D, k) / scale(c)
        if not torch.isfinite(Y).all():
            raise Mismatch("non-finite product")
        events.append({"e": "prod", "key": key, "ver": ver + 1,
                       "X": [[int(v) for v in X[:, j].tolist()] for j in range(k)],
                       "Y": [hutch.vec(Y[:, j].numpy()) for j in range(k)]})
    return {"n": len(events), "trace": events, "fails": []}


def versions(rng, c):
    """Parameter values the user switches to (same shapes, probabilities stay rational)."""
    out = [c["params"]]
    for _ in range(30):
        if len(out) == 2:
            break
        p = [[v + (rng.choice([-1, 1]) if rng.random() < 0.5 else 0) for v in q] for q in c["params"]]
        c2 = dict(c, params=p)
        z = nets.forward_ints(c2)
        if z.abs().max() <= (300 if c["loss"] == "mse" else 3) and (c["loss"] != "mse" or full_rank(c2)):
            out.append(p)
    return out


def describe(c):
    return (f"FisherMC({c['arch']}, {c['loss']}-{c['red']}, params={c['sel']}, mc_samples={c['M']}, "
            f"N={len(c['x'])}, num_data={c['nd'] or None})")


def frequencies(item):
    """Outcomes of many seeds: every product is an outcome, with the specified frequencies."""
    c = item["case"]
    rng = random.Random(item["seed"])
    t = next(r for r in item["recs"] if r["kind"] == "tables")
    N, n = len(c["x"]), len(t["counts"])
    norm = fl(t["norm"]) * scale(c)
    A = numpy.array(decode(t["A"])) * norm  # (N, n, D, D)
    P = numpy.array(decode(t["p"]))  # (N, n)
    D = A.shape[-1]
    all_o = list(itertools.product(range(n), repeat=N))
    M = numpy.array([sum(A[i, o[i]] for i in range(N)) for o in all_o])
    for _ in range(20):
        x = numpy.array([rng.choice([-3, -2, -1, 1, 2, 3]) for _ in range(D)], dtype=float)
        img = M @ x
        size = numpy.abs(img).max()
        if size > 1e-4 * numpy.abs(M).max():
            break
    split = risk.rand_split(rng, N)
    order = [i for b in split for i in b]
    c = nets.merged(rng, c)
    model = nets.build_model(c, torch.float64)
    data = nets.batches(c, split)
    xt = torch.tensor(x)
    what = describe(c) + f" split={split}"
    # outcomes with the same image cannot be told apart
    ident, label = [], []
    for k, v in enumerate(img):
        same = [i for i in ident if numpy.abs(img[i] - v).max() <= 1e-6 * size]
        if not same:
            ident.append(k)
        label.append(same[0] if same else k)
    if size <= 1e-4 * numpy.abs(M).max():
        return {"n": 0, "fails": []}
    T = item["seeds"]
    count, total = Counter(), numpy.zeros(D)
    drawn = []
    base = rng.randrange(2**30)
    for k in range(T):
        op, _ = operator(c, model, data, base + k, rng, check_deterministic=False)
        y = (op @ xt).numpy()
        d = numpy.abs(img - y).max(axis=1)
        best = int(d.argmin())
        if d[best] > 1e-8 * size:
            raise Mismatch(f"{what}, seed {base + k}: product {y.tolist()} with {x.tolist()} is not that of any labels")
        count[label[best]] += 1
        drawn.append(all_o[best])
        total += y
    prob = numpy.array([math.prod(P[i, o[i]] for i in range(N)) for o in all_o])
    pooled = Counter()
    for k, p in zip(label, prob):
        pooled[k] += float(p)
    fit(count, pooled, T, f"{what}: drawn labels")
    if len(ident) == len(all_o):  # also datum by datum and pairs of data
        for i in range(N):
            fit(Counter(o[i] for o in drawn), dict(enumerate(P[i].tolist())), T, f"{what}: labels of datum {i + 1}")
            for j in range(i):
                fit(Counter((o[i], o[j]) for o in drawn), {(a, b): P[i, a] * P[j, b] for a in range(n) for b in range(n)},
                    T, f"{what}: labels of data {j + 1} and {i + 1} (order {order})")
    mean = prob @ img
    ggn = norm * sum(numpy.array(decode(g)) for g in t["ggn"]) @ x
    assert numpy.allclose(mean, ggn, rtol=1e-9, atol=1e-9 * size)
    sd = (prob @ (img - mean) ** 2 / T) ** 0.5
    if (numpy.abs(total / T - ggn) > 7 * sd + 1e-9 * size).any():
        raise Mismatch(f"{what}: average product over {T} seeds {(total / T).tolist()}, expected {ggn.tolist()}")
    return {"n": T, "fails": [], "traces": T}


def fit(count, probs, T, what):
    """Pearson's test with rare outcomes pooled."""
    rare = {k for k, p in probs.items() if p * T < 8}
    pr = {k: p for k, p in probs.items() if k not in rare}
    co = Counter()
    for k, v in count.items():
        if k not in probs:
            raise Mismatch(f"{what}: outcome {k} is impossible")
        co["rare" if k in rare else k] += v
    rp = sum(probs[k] for k in rare)
    if rare:
        if rp * T < 8:  # too rare for a frequency test
            from scipy.stats import binom

            if binom.sf(co["rare"] - 1, T, rp) < 1e-9:
                raise Mismatch(f"{what}: {co['rare']} of {T} draws have outcomes of total probability {rp:.3g}")
            co.pop("rare", None)
            if not pr:
                return
            s = sum(pr.values())
            pr = {k: p / s for k, p in pr.items()}
        else:
            pr["rare"] = rp
    if sum(co.values()):
        hutch.uniform_test(co, pr, what)


def normals(item):
    """MSE: the decoded gradients of many seeds are independent normal vectors of variance 2."""
    from scipy.stats import chi2, kstest

    c = item["case"]
    rng = random.Random(item["seed"])
    N = len(c["x"])
    J = float_exact_jac(item)
    n = J.shape[0]
    pinv = numpy.linalg.pinv(J.T)  # (n, D)
    norm = fl(item["norm"])
    split = risk.rand_split(rng, N)
    c = nets.merged(rng, c)
    model = nets.build_model(c, torch.float64)
    data = nets.batches(c, split)
    eye = torch.eye(J.shape[1], dtype=torch.float64)
    T, Gs = item["seeds"], []
    base = rng.randrange(2**30)
    what = describe(c) + f" split={split}"
    for k in range(T):
        op, _ = operator(c, model, data, base + k, rng, check_deterministic=False)
        F = (op @ eye).numpy()
        G = pinv @ F @ pinv.T * c["M"] / norm
        if numpy.abs(J.T @ G @ J * norm / c["M"] - F).max() > 1e-8 * (numpy.abs(F).max() + 1e-12):
            raise Mismatch(f"{what}, seed {base + k}: not a matrix of output gradients")
        Gs.append(G)
    Gs = numpy.array(Gs)  # sums over draws of g g^T
    M = c["M"]

    def z(v, mean, var, label):
        s = (numpy.mean(v) - mean) / (var / len(v)) ** 0.5
        if abs(s) > 6.5:
            raise Mismatch(f"{what}: {label} is {numpy.mean(v):.4f} instead of {mean} ({s:.1f} standard errors)")

    for i in range(n):
        p = kstest(Gs[:, i, i] / 2, chi2(M).cdf).pvalue
        if p < 1e-9:
            raise Mismatch(f"{what}: squared gradients of output {i} are not those of normal labels (p = {p:.2g}, "
                           f"mean {Gs[:, i, i].mean():.3f} instead of {2 * M})")
        for j in range(i):
            if i // c["C"] == j // c["C"]:
                z(Gs[:, i, j], 0, 4 * M, f"covariance of gradients {i}, {j}")
            # squares of different outputs are independent
            z((Gs[:, i, i] - 2 * M) * (Gs[:, j, j] - 2 * M), 0, (8 * M) ** 2, f"covariance of squared gradients {i}, {j}")
    return {"n": T, "fails": [], "traces": T}


def float_exact_jac(item):
    """Rows of the specified Jacobian, loss term by loss term."""
    c = item["case"]
    ex = risk.Expect(c, item["recs"])
    J = ex.J[:, :, ex.sels[0]].numpy()  # (N, Z, D)
    rows = []
    for i in range(J.shape[0]):
        for r in range(c["R"]):
            for k in range(c["C"]):
                rows.append(J[i, r * c["C"] + k])
    return numpy.array(rows)


def wide(item):
    """Every column of a wide matrix is multiplied with the same matrix."""
    c = item["case"]
    rng = random.Random(item["seed"])
    c = nets.merged(rng, c)
    model = nets.build_model(c, torch.float64)
    split = risk.rand_split(rng, len(c["x"]))
    data = nets.batches(c, split)
    op, shapes = operator(c, model, data, rng.randrange(1000), rng)
    D = op.shape[1]
    F = op @ torch.eye(D, dtype=torch.float64)
    X = rand_int(rng, (D, item["columns"]), torch.float64)
    what = f"{describe(c)} split={split} @ matrix with {item['columns']} columns"
    close(op @ X, F @ X, what, scale=float((F.abs() @ X.abs()).max()) + 1e-12)
    got = op @ split_list(X, [tuple(s) for s in shapes])
    same_list(got, split_list(F @ X, [tuple(s) for s in shapes]), what, float((F.abs() @ X.abs()).max()) + 1e-12)
    return {"n": 3, "fails": []}


def rarest(c):
    """Probability of the least likely label of any datum."""
    z = nets.forward_ints(c).double() * LN2
    if c["loss"] == "ce":
        return float(z.softmax(1).min())
    return float(torch.minimum(z.sigmoid(), (-z).sigmoid()).min())


def many(item):
    """One operator with very many draws: every entry is within its exact deviation of the GGN."""
    c = item["case"]
    rng = random.Random(item["seed"])
    M = item["draws"]
    N = len(c["x"])
    if c["loss"] == "mse":
        J = float_exact_jac(item)
        norm = fl(item["norm"])
        G, V, big = 0.0, 0.0, 0.0
        for n in range(J.shape[0] // c["C"]):
            S = 2 * J[n * c["C"]:(n + 1) * c["C"]].T @ J[n * c["C"]:(n + 1) * c["C"]]
            G = G + norm * S
            V = V + norm**2 * (numpy.outer(numpy.diag(S), numpy.diag(S)) + S**2)
    else:
        t = next(r for r in item["recs"] if r["kind"] == "tables")
        norm = fl(t["norm"]) * scale(c)
        A = numpy.array(decode(t["A"])) * norm  # (N, n, D, D), single draws
        P = numpy.array(decode(t["p"]))
        G = norm * sum(numpy.array(decode(g)) for g in t["ggn"])
        mean = (P[..., None, None] * A).sum(1)
        V = (P[..., None, None] * (A - mean[:, None]) ** 2).sum((0, 1))
        big = numpy.abs(A - mean[:, None]).max(axis=(0, 1))
    # Bernstein's inequality (normal labels: sums of squares, covered by the wider margin)
    L = 24.0
    tol = numpy.sqrt(2 * L * V / M) + L * (big if c["loss"] != "mse" else numpy.sqrt(V)) / M * 2
    c2 = nets.merged(rng, dict(c, M=M))
    split = risk.rand_split(rng, N)
    model = nets.build_model(c2, torch.float64)
    seed = rng.choice([SEED, rng.randrange(2**32)])
    op, _ = operator(c2, model, nets.batches(c2, split), seed, rng, check_deterministic=False)
    D = G.shape[0]
    F = (op @ torch.eye(D, dtype=torch.float64)).numpy()
    bad = numpy.abs(F - G) > tol + 1e-9 * numpy.abs(G).max()
    if bad.any():
        a, b = map(int, numpy.argwhere(bad)[0])
        raise Mismatch(f"{describe(c2)} split={split}, seed {seed}: entry ({a}, {b}) is {F[a, b]:.6g}; the specified law "
                       f"has mean {G[a, b]:.6g} and allows deviations up to {tol[a, b]:.3g}")
    return {"n": 1, "fails": [], "traces": 1}


def seeds(item):
    """Normal labels: operators with different seeds are different, equal seeds equal."""
    c = item["case"]
    rng = random.Random(item["seed"])
    split = risk.rand_split(rng, len(c["x"]))
    c = nets.merged(rng, c)
    model = nets.build_model(c, torch.float64)
    data = nets.batches(c, split)
    s = rng.randrange(2**31)
    pool = {s, s + 2**31, s ^ 1, s ^ 2**rng.randrange(31), s ^ 2**16, s ^ 2**30, 0, SEED, 2**32 - 1, 2**31, 1234}
    got = {}
    for v in sorted(pool):
        op, _ = operator(c, model, data, v, rng, check_deterministic=False)
        F = op @ torch.eye(op.shape[1], dtype=torch.float64)
        op2, _ = operator(c, model, data, v, rng, check_deterministic=False)
        close(op2 @ torch.eye(op.shape[1], dtype=torch.float64), F, f"{describe(c)}: two operators with seed {v}")
        for w, W in got.items():
            if torch.allclose(F, W, rtol=1e-9, atol=0):
                raise Mismatch(f"{describe(c)} split={split}: seeds {w} and {v} draw the same labels: {F.flatten()[:4].tolist()}")
        got[v] = F
    return {"n": len(pool), "fails": []}


def validate(ctx, hist, out):
    if ctx.only is not None:
        hist = [ctx.only] if ctx.only.get("task") == "history" else []
    traces = []
    for h, r in zip(hist, out):
        if r.get("trace") is not None:
            traces.append(dict(h["case"], id=h["id"], events=r["trace"], tol=[1, 10**8]))
    got = ctx.tlc("DrawsTrace", traces, weight=lambda c: len(c["events"]) * (outcomes(c) if c["loss"] != "mse" else 20))
    for tr in traces:
        recs = got.get(tr["id"], [])
        if any(r.get("accepted") for r in recs):
            ctx.traces += 1
            continue
        at = max([r["stuck"] for r in recs] or [0])
        ev = tr["events"][at - 1] if at else {}
        ctx.fail([h for h in hist if h["id"] == tr["id"]][0],
                 f"{describe(tr)}: event {at} of the history {[(e['e'], e.get('key', '')) for e in tr['events']]} is not "
                 f"explained by labels drawn once per key: {str(ev)[:700]}")


def run(ctx):
    rng = ctx.rng()
    t = 4 if ctx.thorough else 1
    limit = 400 if ctx.thorough else 150
    cases, freq, norm = [], [], []
    for rep in range(t):
        for arch in SMALL + SEQ:
            for loss in ("ce", "bce", "mse"):
                red = rng.choice(["mean", "sum"])
                sizes = (1, 2, 3) if arch in SMALL else (1, 2)
                c = make(rng, arch, loss, red, rng.choice([1, 2, 2, 3]), sizes, limit, cid=len(cases) + 1)
                if c is None:
                    continue
                c["id"] = len(cases) + 1
                cases.append(c)
    # exact law of every case
    finite = [c for c in cases if c["loss"] != "mse"]
    recs = ctx.tlc("Draws", finite, weight=outcomes)
    ctx.exhaustive = "all label outcomes of every case with cross-entropy losses: expectation, variance, definiteness"
    hist = []
    for c in cases:
        c["pv"] = versions(rng, c)
        hist.append({"task": "history", "id": c["id"], "case": c, "length": 10, "seed": f"{ctx.seed}/h{c['id']}"})
    ctx.sample({"case": {k: cases[0][k] for k in ("layers", "x", "loss", "M", "sel")}})
    out = ctx.pmap(record, hist)
    validate(ctx, hist, out)
    ctx.pmap(wide, [{"task": "wide", "case": c, "columns": rng.choice([17, 40, 70, 130, 300]),
                     "seed": f"{ctx.seed}/w{c['id']}"} for c in cases])
    for c in finite:
        freq.append({"task": "freq", "case": c, "recs": recs[c["id"]], "seeds": 1200 if not ctx.thorough else 6000,
                     "seed": f"{ctx.seed}/f{c['id']}"})
    ctx.pmap(frequencies, freq, timeout=600)
    ms = [c for c in cases if c["loss"] == "mse"]
    ex = ctx.tlc("Risk", [dict(c, contig=True, second=False) for c in ms], weight=risk.weight)
    for c in ms:
        v = next(r for r in ex[c["id"]] if r["kind"] == "values")
        norm.append({"task": "normal", "case": c, "recs": [v], "norm": v["norm"],
                     "seeds": 400 if not ctx.thorough else 4000, "seed": f"{ctx.seed}/n{c['id']}"})
    ctx.pmap(normals, norm, timeout=600)
    ctx.pmap(seeds, [{"task": "seeds", "case": c, "seed": f"{ctx.seed}/s{c['id']}"} for c in ms])
    # rare labels: one operator with very many draws
    sharp = []
    for arch in SMALL + SEQ:
        for loss in ("ce", "bce"):
            for _ in range(40):
                c = make(rng, arch, loss, rng.choice(["mean", "sum"]), 1, (1, 2), limit, zmax=10)
                if c is not None and 1 / 1500 < rarest(c) < 1 / 100:
                    sharp.append(dict(c, id=1000 + len(sharp)))
                    break
    sr = ctx.tlc("Draws", sharp, weight=outcomes)
    ctx.pmap(many, [{"task": "many", "case": c, "recs": sr[c["id"]], "draws": 200000 * t, "seed": f"{ctx.seed}/m{c['id']}"}
                    for c in sharp] +
             [{"task": "many", "case": i["case"], "recs": i["recs"], "norm": i["norm"], "draws": 50000 * t,
               "seed": f"{ctx.seed}/M{i['case']['id']}"} for i in norm], timeout=600)
