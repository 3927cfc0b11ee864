"""C20: Hutchinson estimators evaluate their definition at an admissible vector."""

import itertools
import random
from collections import Counter

import hutch
import numpy
from core import Mismatch, fl


def law_of(item, c, recs):
    return [tuple(fl(r) for r in v) for v in recs[0]["law"]], [fl(r) for r in recs[0]["target"]]


def replay(item):
    """Draw often: every vector and result is an outcome, all equally likely."""
    c = item["case"]
    rng = random.Random(item["seed"])
    law, target = law_of(item, c, item["recs"])
    n_cols = len(c["A"][0])
    numpy.random.seed(rng.randrange(2**31))
    signs = [tuple(-1.0 if (k >> i) & 1 else 1.0 for i in range(n_cols)) for k in range(2**n_cols)]
    rec = hutch.Recorder(c["A"])
    ests = [hutch.estimator(c["est"], rec) for _ in range(item["estimators"])]
    T = item["samples"]
    drawn, total = [], numpy.zeros(len(target))
    for t in range(T):
        rec.seen = []
        r = hutch.sample(ests[t % len(ests)], "rademacher", rng)
        v = tuple(rec.seen[0].tolist())
        what = f"{c['est']} estimator of {c['A']}"
        if v not in signs:
            raise Mismatch(f"{what}: drawn vector {v} is not a sign vector")
        k = signs.index(v)
        got = numpy.atleast_1d(r)
        if got.shape != (len(law[k]),) or numpy.abs(got - law[k]).max() > 1e-9 * (1 + numpy.abs(law[k]).max()):
            raise Mismatch(f"{what}: sample {r} at {v}, expected {law[k]}")
        drawn.append(k)
        total += got
    n = len(signs)
    hutch.uniform_test(Counter(drawn), {k: 1 / n for k in range(n)}, f"{what}: drawn vectors")
    for lag in (1, 2):
        hutch.uniform_test(Counter(zip(drawn, drawn[lag:])), {(a, b): 1 / n**2 for a in range(n) for b in range(n)},
                           f"{what}: pairs of vectors {lag} apart")
    sd = numpy.std(numpy.array(law), axis=0) / T**0.5
    off = numpy.abs(total / T - numpy.array(target))
    if (off > 7 * sd + 1e-9 * (1 + numpy.abs(target))).any():
        raise Mismatch(f"{what}: average {total / T} of {T} samples, expected {target}")
    return {"n": T, "fails": []}


def replay_same(item):
    """Seeded estimators of the same matrix given in other ways agree."""
    rng = random.Random(item["seed"])
    n = 0
    for _ in range(item["count"]):
        est = rng.choice(["tr", "diag", "fro"])
        rows = rng.randint(1, 6)
        cols = rng.randint(1, 6) if est == "fro" else rows
        A = hutch.matrix(rng, rows, cols)
        s = rng.randrange(2**31)
        dists = [rng.choice(["rademacher", "normal"]) for _ in range(4)]
        res = []
        for op in (hutch.Recorder(A), hutch.plain(rng, A)):
            numpy.random.seed(s)
            e = hutch.estimator(est, op)
            res.append([hutch.sample(e, d, rng) for d in dists])
        if not numpy.allclose(res[0], res[1], rtol=1e-9, atol=1e-9):
            raise Mismatch(f"{est} estimator of {A} as {type(op).__name__}: samples {res[1]}, expected {res[0]} ({dists})")
        n += 1
    return {"n": n, "fails": []}


def replay_law(item):
    """Single draws of larger dimension: entries, balance, independence."""
    rng = random.Random(item["seed"])
    numpy.random.seed(rng.randrange(2**31))
    dim, T, dist = item["dim"], item["samples"], item["dist"]
    est = item["est"]
    d = numpy.array([rng.randint(-3, 3) for _ in range(dim)], dtype=float)
    rec = hutch.Recorder(numpy.diag(d))
    e = hutch.estimator(est, rec)
    X = []
    for _ in range(T):
        rec.seen = []
        r = numpy.atleast_1d(hutch.sample(e, dist, rng))
        x = rec.seen[0]
        want = {"tr": [d @ x**2], "diag": d * x**2, "fro": [(d * x) @ (d * x)]}[est]
        if not numpy.allclose(r, want, rtol=1e-9, atol=1e-9):
            raise Mismatch(f"{est} estimator of diag({d.tolist()}): sample {r} at {x.tolist()}, expected {want}")
        X.append(x)
    X = numpy.array(X)
    what = f"{dist} vectors of dimension {dim} in the {est} estimator"
    if dist == "normal":
        hutch.normal_test(X, what)
    else:
        if not numpy.isin(X, (-1.0, 1.0)).all():
            raise Mismatch(f"{what}: entries other than 1 and -1")
        S = X.sum(axis=0) / T**0.5
        C = (X.T @ X / T**0.5)[~numpy.eye(dim, dtype=bool)] if dim > 1 else numpy.zeros(1)
        L = (X[1:].T @ X[:-1] / T**0.5).reshape(-1)
        # triple products: pairwise independent signs are not enough
        tri = itertools.islice(itertools.combinations(rng.sample(range(dim), dim), 3), 4000)
        Q = numpy.array([(X[:, a] * X[:, b] * X[:, c]).sum() / T**0.5 for a, b, c in tri] or [0.0])
        for stat, label in ((S, "mean"), (C, "covariance"), (L, "covariance with the next draw"), (Q, "triple product")):
            if numpy.abs(stat).max() > 7:
                raise Mismatch(f"{what}: {label} off by {numpy.abs(stat).max():.1f} standard errors")
    return {"n": T, "fails": []}


def record(item):
    rng = random.Random(item["seed"])
    numpy.random.seed(rng.randrange(2**31))
    ev = hutch.history(rng, item["est"], item["A"], 0, "", item["events"])
    return {"n": len(ev), "fails": [], "trace": ev}


def run(ctx):
    rng = ctx.rng()
    t = 5 if ctx.thorough else 1
    cases = []
    for est in ("tr", "diag", "fro"):
        for i in range(6 * t):
            rows = [1, 2, 3, 2, 3, 3][i % 6] if i < 6 else rng.randint(1, 4)
            cols = rng.randint(1, 4 if ctx.thorough else 3) if est == "fro" else rows
            cases.append({"id": len(cases) + 1, "est": est, "A": hutch.matrix(rng, rows, cols, rng.choice(["any", "any", "sym"])), "m": 0})
    out = ctx.tlc("Hutch", cases)
    ctx.exhaustive = "all sign vectors of every case (dimensions up to 4): definition, average, law"
    items = [{"task": "law", "case": c, "recs": out[c["id"]], "samples": 6000 if not ctx.thorough else 30000,
              "estimators": rng.choice([1, 2]), "seed": f"{ctx.seed}/{c['id']}"} for c in cases]
    ctx.sample({"case": cases[3], "law": out[cases[3]["id"]][0]["law"]})
    ctx.pmap(replay, items)
    ctx.pmap(replay_same, [{"task": "same", "count": 30 * t, "seed": f"{ctx.seed}/s{i}"} for i in range(8)])
    ctx.pmap(replay_law, [{"task": "dims", "est": est, "dist": dist, "dim": dim, "samples": (8000 if dim < 30 else 1500) * (3 if ctx.thorough else 1),
                           "seed": f"{ctx.seed}/d{est}{dist}{dim}"}
                          for est in ("tr", "diag", "fro") for dist in ("rademacher", "normal") for dim in (1, 4, 9)]
             + [{"task": "dims", "est": rng.choice(["tr", "diag", "fro"]), "dist": dist, "dim": dim, "samples": 1500,
                 "seed": f"{ctx.seed}/D{dist}{dim}"} for dist in ("rademacher", "normal") for dim in (60, rng.randint(65, 140), 257)])
    # recorded histories, explained by the specification
    hist = []
    for est in ("tr", "diag", "fro"):
        for i in range(12 * t):
            rows = rng.randint(1, 4)
            cols = rng.randint(1, 4) if est == "fro" else rows
            events = []
            for _ in range(6):
                ev = {"e": "sample", "dist": rng.choice(["rademacher", "normal"])}
                if rng.random() < 0.25:
                    ev["at"] = 0
                events.append(ev)
            hist.append({"task": "record", "id": len(hist) + 1, "est": est, "A": hutch.matrix(rng, rows, cols), "m": 0,
                         "basis": "", "events": events, "seed": f"{ctx.seed}/h{len(hist)}"})
    hutch_validate(ctx, record, hist)


def hutch_validate(ctx, fn, hist):
    res = ctx.pmap(fn, hist)
    if ctx.only is not None:
        hist = [ctx.only] if ctx.only.get("task") == "record" else []
    traces = []
    for h, r in zip(hist, res):
        if r.get("trace") is not None:
            traces.append({k: h[k] for k in ("id", "est", "A", "m", "basis")} | {"tol": [1, 10**7], "events": r["trace"]})
    got = ctx.tlc("HutchTrace", traces)
    for tr in traces:
        recs = got.get(tr["id"], [])
        if any(r.get("accepted") for r in recs):
            ctx.traces += 1
            continue
        at = max([r["stuck"] for r in recs] or [0])
        ev = tr["events"][at - 1] if at else {}
        ctx.fail([h for h in hist if h["id"] == tr["id"]][0],
                 f"{tr['est']} estimator of {tr['A']} (sketch size {tr['m']} {tr['basis']}): event {at} of the history "
                 f"{[(e['e'], e.get('dist', '')) for e in tr['events']]} is not explained: {str(ev)[:600]}")
