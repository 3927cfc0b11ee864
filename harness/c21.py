"""C21: Hutch++ is unbiased for every sketch and exact on the sketched subspace."""

import random
from collections import Counter

import hutch
import numpy
from c20 import hutch_validate
from core import Mismatch, fl

TOL = 1e-8


def key(S):
    return tuple(tuple(int(x) for x in s) for s in S)


def replay(item):
    """Many estimators: law of the sketch, law of the samples given the sketch."""
    c = item["case"]
    rng = random.Random(item["seed"])
    n, m, A = len(c["A"]), c["m"], c["A"]
    size = sum(abs(x) for row in A for x in row) + 1
    table = {key([[fl(r) for r in s] for s in rec["S"]]):
             ([fl(v[0]) for v in rec["law"]], rec["unique"], rec["exact"]) for rec in item["recs"]}
    target = fl(item["recs"][0]["target"][0])
    numpy.random.seed(rng.randrange(2**31))
    rec = hutch.Recorder(A)
    sketches, per, runs, total, sq = Counter(), {}, 0, 0.0, 0.0
    for _ in range(item["estimators"]):
        e = hutch.estimator("pp", rec, basis_dim=m)
        rec.seen = []
        S = None
        for _ in range(item["samples"]):
            r = hutch.sample(e, "rademacher", rng)
            what = f"Hutch++ of {A} with {m} sketch vectors"
            if S is None:
                S = key(rec.seen[:m])
                if S not in table:
                    raise Mismatch(f"{what}: the first vectors {S} applied are no sign vectors")
                sketches[S] += 1
            law, unique, exact = table[S]
            if exact and abs(r - target) > TOL * size:
                raise Mismatch(f"{what}: sketch {S} captures the trace {target} exactly, but a sample is {r}")
            if unique and not exact:
                near = min(law, key=lambda v: abs(v - r))
                if abs(near - r) > TOL * size:
                    raise Mismatch(f"{what}: sample {r} with sketch {S}; possible values {sorted(set(law))}")
                per.setdefault(S, []).append(round(near, 6) + 0.0)
            runs += 1
        # one sample per sketch enters the average: independent terms
        total += r
        sq += r * r
    if item["joint"]:
        hutch.uniform_test(sketches, {S: 1 / len(table) for S in table}, f"{what}: sketches")
    # given the sketch every sign vector is equally likely
    for S, rs in per.items():
        law = [round(v, 6) + 0.0 for v in table[S][0]]
        probs = {v: k / len(law) for v, k in Counter(law).items()}
        if len(rs) * min(probs.values()) >= 5:
            hutch.uniform_test(Counter(rs), probs, f"{what}: samples with sketch {S}", level=1e-11)
    E = item["estimators"]
    var = max(sq / E - (total / E) ** 2, 0.0)
    if item["joint"] and abs(total / E - target) > 7 * (var / E) ** 0.5 + TOL * size:
        raise Mismatch(f"{what}: average {total / E} over {E} estimators, trace {target}")
    return {"n": runs, "fails": []}


def replay_normal(item):
    """Unbiased and exact on captured ranges with normal vectors, and the default sketch size."""
    rng = random.Random(item["seed"])
    numpy.random.seed(rng.randrange(2**31))
    n = 0
    for _ in range(item["count"]):
        dim = rng.randint(2, 12) if rng.random() < 0.75 else rng.randint(16, 40)
        r = rng.randint(1, dim)
        B = numpy.array([[rng.randint(-2, 2) for _ in range(dim)] for _ in range(r)], dtype=float)
        A = B.T @ numpy.diag([rng.choice([-1.0, 1.0, 2.0]) for _ in range(r)]) @ B
        m = rng.randint(r, dim)
        bd = rng.choice(["normal", "normal", "rademacher"])
        rec = hutch.Recorder(A)
        e = hutch.estimator("pp", rec, basis_dim=m, basis_distribution=bd)
        for _ in range(3):
            s = hutch.sample(e, rng.choice(["rademacher", "normal"]), rng)
            S = numpy.array(rec.seen[:m]).T
            Q = numpy.linalg.svd(A @ S)[0][:, : numpy.linalg.matrix_rank(A @ S, tol=1e-6)]
            if numpy.abs(A - Q @ (Q.T @ A)).max() > 1e-8:
                continue  # an unlucky sketch misses part of the range
            if abs(s - numpy.trace(A)) > 1e-7 * (1 + numpy.abs(A).sum()) * (1 if dim <= 12 else 10):
                raise Mismatch(f"Hutch++ of a rank-{r} matrix of dimension {dim}, {m} {bd} sketch vectors: sample {s}, trace {numpy.trace(A)}")
            n += 1
    return {"n": n, "fails": []}


def replay_same(item):
    """Seeded estimators of the same matrix given in other ways agree."""
    rng = random.Random(item["seed"])
    n = 0
    for _ in range(item["count"]):
        dim = rng.randint(1, 7)
        while True:
            A = hutch.matrix(rng, dim, dim, rng.choice(["any", "sym"]))
            if numpy.linalg.matrix_rank(numpy.array(A, dtype=float)) == dim:
                break
        m = rng.randint(1, dim)
        s = rng.randrange(2**31)
        dists = [rng.choice(["rademacher", "normal"]) for _ in range(3)]
        res = []
        rec = hutch.Recorder(A)
        for op in (rec, hutch.plain(rng, A)):
            numpy.random.seed(s)
            e = hutch.estimator("pp", op, basis_dim=m, basis_distribution="normal")
            res.append([hutch.sample(e, d, rng) for d in dists])
        AS = numpy.array(A, dtype=float) @ numpy.array(rec.seen[:m]).T
        tol = 1e-12 * numpy.linalg.cond(AS) * (1 + numpy.abs(A).sum()) * dim
        if tol < 1e-3 and not numpy.allclose(res[0], res[1], rtol=1e-9, atol=tol + 1e-9):
            raise Mismatch(f"Hutch++ of {A} as {type(op).__name__}, {m} sketch vectors: samples {res[1]}, expected {res[0]} ({dists})")
        n += 1
    return {"n": n, "fails": []}


def replay_size(item):
    """The default sketch size is one per cent of the dimension, at least 1, at most 10."""
    rng = random.Random(item["seed"])
    dim = item["dim"]
    numpy.random.seed(rng.randrange(2**31))
    d = numpy.arange(1, dim + 1, dtype=float)

    class Diag(hutch.Recorder):
        def __init__(self):
            super().__init__(numpy.zeros((1, 1)))
            self.shape = (dim, dim)
            self.A = None

        def _matvec(self, x):
            x = numpy.asarray(x).reshape(-1)
            self.seen.append(x.copy())
            return d * x

    rec = Diag()
    e = hutch.estimator("pp", rec)
    r = e.sample()
    m = min(10, max(dim // 100, 1))
    # sketch vectors are sign vectors; vectors of the orthonormal basis are not
    got = 0
    for x in rec.seen:
        if not (numpy.abs(x) == 1.0).all():
            break
        got += 1
    what = f"Hutch++ of dimension {dim} with the default sketch"
    if dim > 1 and got != m:
        raise Mismatch(f"{what}: {got} sketch vectors, expected {m}")
    S = numpy.array(rec.seen[:m]).T
    Q = numpy.linalg.qr(d[:, None] * S)[0]
    w = rec.seen[-1]
    if dim > 1:
        if numpy.abs(Q.T @ w).max() > 1e-7 * dim:
            raise Mismatch(f"{what}: the sampled vector is not orthogonal to the subspace")
        want = (Q * (d[:, None] * Q)).sum() + w @ (d * w)
    else:
        want = 1.0
    if abs(r - want) > 1e-8 * d.sum():
        raise Mismatch(f"{what}: sample {r}, expected {want}")
    seen = len(rec.seen)
    e.sample()
    if dim > 1 and len(rec.seen) - seen > m:
        raise Mismatch(f"{what}: the second sample needed {len(rec.seen) - seen} products")
    return {"n": 2, "fails": []}


def record(item):
    rng = random.Random(item["seed"])
    numpy.random.seed(rng.randrange(2**31))
    ev = hutch.history(rng, "pp", item["A"], item["m"], item["basis"], item["events"])
    return {"n": len(ev), "fails": [], "trace": ev}


def run(ctx):
    rng = ctx.rng()
    t = 4 if ctx.thorough else 1
    dims = [(1, 1), (2, 1), (2, 1), (2, 2), (3, 1), (3, 1), (3, 2), (3, 2), (3, 3), (4, 1)]
    dims += [(3, 1), (2, 1), (3, 2), (4, 1)]
    if ctx.thorough:
        dims += [(4, 2)] * 3 + [(3, 2)] * 6 + [(3, 1)] * 6
    cases = [{"id": i + 1, "est": "pp", "A": hutch.matrix(rng, n, n, ["any", "sym", "low"][i % 3]), "m": m}
             for i, (n, m) in enumerate(dims)]
    out = ctx.tlc("Hutch", cases, weight=lambda c: 2 ** (len(c["A"]) * (c["m"] + 1)))
    ctx.exhaustive = "all sketches and sign vectors of every case (dimensions up to 4)"
    ctx.sample({"case": cases[1], "law given the first sketch": out[2][0]["law"]})
    items = []
    for c in cases:
        k = len(out[c["id"]])
        items.append({"task": "law", "case": c, "recs": out[c["id"]], "joint": True, "estimators": max(25 * k, 400) * t,
                      "samples": 1, "seed": f"{ctx.seed}/j{c['id']}"})
        items.append({"task": "law", "case": c, "recs": out[c["id"]], "joint": False, "estimators": 4, "samples": 400 * t,
                      "seed": f"{ctx.seed}/l{c['id']}"})
    ctx.pmap(replay, items)
    ctx.pmap(replay_normal, [{"task": "normal", "count": 15 * t, "seed": f"{ctx.seed}/n{i}"} for i in range(8)])
    ctx.pmap(replay_same, [{"task": "same", "count": 20 * t, "seed": f"{ctx.seed}/s{i}"} for i in range(8)])
    sizes = [1, 2, 50, 99, 100, 199, 200, 250, 999, 1000, 1099, 1500]
    ctx.pmap(replay_size, [{"task": "size", "dim": d, "seed": f"{ctx.seed}/d{d}"} for d in sizes])
    hist = []
    for i in range(48 * t):
        n = rng.randint(1, 4)
        m = rng.randint(1, n)
        events, prepared = [], False
        for _ in range(6):
            if rng.random() < (0.2 if prepared else 0.35):
                ev = {"e": "prepare"}
            else:
                ev = {"e": "sample", "dist": rng.choice(["rademacher", "normal"])}
            if rng.random() < (0.7 if not prepared else 0.2):
                ev["at"] = rng.randint(0, 2 * m)
                prepared = prepared or (ev["e"] == "sample" and ev["at"] >= 2 * m)
            else:
                prepared = True
            events.append(ev)
        hist.append({"task": "record", "id": i + 1, "est": "pp", "A": hutch.matrix(rng, n, n, rng.choice(["any", "sym", "low"])),
                     "m": m, "basis": rng.choice(["rademacher", "normal"]), "events": events, "seed": f"{ctx.seed}/h{i}"})
    hutch_validate(ctx, record, hist)
