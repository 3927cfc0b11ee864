"""C22: spectral density estimates follow the Lanczos quadrature and its caching rules."""

import random
from fractions import Fraction

import hutch
import numpy
from core import Mismatch, big, decode, fl

SMALL = 2.0**-24
LIN = {"repeats": 1, "points": 1024, "kappa": 3.0, "margin": [1, 20]}


def rat(f):
    return f[0] / f[1]


def symmetric(rng, n):
    """Well separated eigenvalues, none near zero."""
    while True:
        A = hutch.matrix(rng, n, n, "sym")
        e = numpy.linalg.eigvalsh(numpy.array(A, dtype=float))
        if numpy.abs(e).min() > 0.2 and (n == 1 or numpy.diff(e).min() > 0.2):
            return A


def options(c, q, names, rng):
    """Keyword arguments of a request; defaults are sometimes left out."""
    d = dict(LIN, kappa=1.04 if (c["log"] and not c["cached"]) else 3.0, eps=1e-5)
    kw = {}
    for name in names:
        key = {"num_repeats": "repeats", "num_points": "points", "epsilon": "eps"}.get(name, name)
        val = q[key]
        if val == d[key] and rng.random() < 0.7 and (name != "epsilon" or c["scale"] == 1.0):
            continue
        kw[name] = rat(val) if key == "margin" else val * c["scale"] if name == "epsilon" else val
    return kw


def bounds_kw(c):
    b, kw = c["bounds"], {}
    if b["given"] != "none":
        lo = b["lo"] * c["scale"] if b["given"] in ("both", "lo") else None
        hi = b["hi"] * c["scale"] if b["given"] in ("both", "hi") else None
        kw["boundaries"] = (lo, hi)
    if c["tol"] is not None:
        kw["boundaries_tol"] = c["tol"]
    return kw


def record(item):
    """Replay a history; returns start vectors and results."""
    import curvlinops as cl

    c = item["case"]
    rng = random.Random(item["seed"])
    numpy.random.seed(rng.randrange(2**31))
    ncv = c["ncv"]
    rec = hutch.Recorder(numpy.array(c["A"]) * c["scale"])
    what = f"{'cached' if c['cached'] else 'uncached'} {'log ' if c['log'] else ''}spectrum of {c['A']} * {c['scale']}, ncv={ncv}, {c['bounds']}"
    names = ["num_repeats", "num_points", "kappa", "margin"] + (["epsilon"] if c["log"] else [])
    both = c["bounds"]["given"] == "both"
    if c["cached"]:
        est = (cl.LanczosApproximateLogSpectrumCached if c["log"] else cl.LanczosApproximateSpectrumCached)(rec, ncv, **bounds_kw(c))
        ask = est.approximate_log_spectrum if c["log"] else est.approximate_spectrum
        if both and rec.seen:
            raise Mismatch(f"{what}: products although the boundaries are given")
    else:
        fn = cl.lanczos_approximate_log_spectrum if c["log"] else cl.lanczos_approximate_spectrum

        def ask(**kw):
            return fn(rec, ncv, **bounds_kw(c), **kw)

    runs, results = [], []
    for pos, ev in enumerate(item["hist"]):
        q = c["reqs"][ev["s"] - 1]
        kw = options(c, q, names, rng)
        rec.seen = []
        rec.fail_at = ev.get("at")
        try:
            grid, dens = ask(**kw)
            raised = False
        except hutch.Boom:
            raised = True
        rec.fail_at = None
        if raised != (ev["e"] == "break"):
            raise Mismatch(f"{what}: request {pos} {'raised' if raised else 'did not raise'} ({item['hist']})")
        need = ev["new"] * ncv
        if ev["e"] == "break":
            need = ev["at"]
        est_products = 0 if (c["cached"] or both) else len(rec.seen) - need
        if len(rec.seen) - est_products != need or est_products < 0:
            raise Mismatch(f"{what}: request {pos} of {[(e['e'], c['reqs'][e['s'] - 1]['repeats']) for e in item['hist']]} "
                           f"made {len(rec.seen)} products, expected {need}")
        seen = rec.seen[est_products:]
        for i in range(ev["new"]):
            v = seen[i * ncv]
            if abs(numpy.linalg.norm(v) - 1) > 1e-9:
                raise Mismatch(f"{what}: start vector {v.tolist()} is not normalised")
            runs.append(v)
        if ev["e"] == "ask":
            if numpy.shape(grid) != (q["points"],) or numpy.shape(dens) != (q["points"],):
                raise Mismatch(f"{what}: shapes {numpy.shape(grid)}, {numpy.shape(dens)} for {q['points']} points")
            results.append({"s": ev["s"], "uses": ev["uses"], "grid": (numpy.array(grid) / c["scale"]).tolist(),
                            "dens": (numpy.array(dens) * c["scale"]).tolist()})
            if rng.random() < 0.3:  # the caller may do anything with the result
                grid *= 0
                dens *= 0
    # other estimators do not disturb; identical vectors would be wrong
    for i in range(len(runs)):
        for j in range(i):
            if len(runs[i]) > 1 and numpy.abs(runs[i] - runs[j]).max() < 1e-9:
                raise Mismatch(f"{what}: runs {j + 1} and {i + 1} use the same start vector")
    return {"n": len(item["hist"]), "fails": [], "starts": [hutch.vec(v) for v in runs], "results": results}


def jacobi(rec):
    a = numpy.array(decode(rec["alpha"]))
    b = numpy.sqrt(numpy.array(decode(rec["b2"]))) if rec["b2"] else numpy.zeros(0)
    return numpy.diag(a) + numpy.diag(b, 1) + numpy.diag(b, -1), b


def gauss(x, mu, s):
    return numpy.exp(-0.5 * ((x - mu) / s) ** 2) / (s * numpy.sqrt(2 * numpy.pi))


def compare(item):
    c, maps = item["case"], item["maps"]
    A = numpy.array(c["A"], dtype=float)
    ev = numpy.linalg.eigvalsh(A)
    T = [jacobi(r) for r in item["quad"]]
    n = 0
    first = None
    b = c["bounds"]
    for res in item["results"]:
        q, mp = c["reqs"][res["s"] - 1], maps[res["s"] - 1]
        what = (f"{'cached' if c['cached'] else 'uncached'} {'log ' if c['log'] else ''}spectrum of {c['A']} * {c['scale']}, ncv={c['ncv']}, "
                f"{b}, tolerance {c['tol']}, request {q}, history of {[c['reqs'][h['s'] - 1]['repeats'] for h in item['hist']]} repeats")
        grid, dens = numpy.array(res["grid"]), numpy.array(res["dens"])
        eps = q["eps"]
        ends = numpy.log(grid[[0, -1]]) if c["log"] else grid[[0, -1]]
        gc = numpy.array([decode(g) for g in mp["grid"]])  # coefficients of (L, H)
        L, H = numpy.linalg.solve(gc[[0, -1]], ends)
        true = [numpy.abs(ev).min(), numpy.abs(ev).max()] if c["log"] else [ev[0], ev[-1]]
        got = [numpy.exp(v) - eps for v in (L, H)] if c["log"] else [L, H]
        scale = numpy.abs(ev).max()
        for side, name in ((0, "lo"), (1, "hi")):
            if b["given"] in ("both", name):
                want = abs(b[name]) if c["log"] else b[name]
                if abs(got[side] - want) > 1e-9 * max(abs(want), scale, 1.0):
                    raise Mismatch(f"{what}: boundary {got[side]} instead of the given {want}")
            else:
                tol = 1e-6 if c["tol"] == 0.0 else 3 * (c["tol"] or 1e-2)
                if abs(got[side] - true[side]) > tol * scale:
                    raise Mismatch(f"{what}: boundary {got[side]} instead of {true[side]}")
        if first is not None and max(abs(first[0] - got[0]), abs(first[1] - got[1])) > 1e-8 * scale and c["cached"]:
            raise Mismatch(f"{what}: boundaries changed from {first} to {got}")
        first = got
        # the documented sum of bumps at the mapped nodes, averaged over the runs
        lh = numpy.array([L, H])
        centre, half = (numpy.dot(decode(mp[k]), lh) for k in ("centre", "half"))
        want_grid = gc @ lh
        t = numpy.array(decode(mp["norm"]))
        sigma = 2 / (c["ncv"] - 1) / numpy.sqrt(8 * numpy.log(q["kappa"]))
        want = numpy.zeros_like(grid)
        skip = False
        for u in res["uses"]:
            theta, vecs = numpy.linalg.eigh(T[u - 1][0])
            if len(T[u - 1][1]) and T[u - 1][1].min() < 1e-3 * scale:
                skip = True
            w = vecs[0] ** 2
            if c["log"]:
                if numpy.abs(theta).min() < 1e-4 * scale:
                    skip = True
                nodes = (numpy.log(numpy.abs(theta) + eps) - centre) / half
                part = sum(wk * gauss(t, nk, sigma) for wk, nk in zip(w, nodes)) / (half * numpy.exp(want_grid))
            else:
                nodes = (theta - centre) / half
                part = sum(wk * gauss(t, nk, sigma) for wk, nk in zip(w, nodes)) / half
            want += part / len(res["uses"])
        if c["log"]:
            want_grid = numpy.exp(want_grid)
        if numpy.abs(grid - want_grid).max() > 1e-8 * numpy.abs(want_grid).max() or (
            c["log"] and numpy.abs(grid / want_grid - 1).max() > 1e-7):
            raise Mismatch(f"{what}: grid {grid.tolist()[:8]}, expected {want_grid.tolist()[:8]}")
        if not skip and numpy.abs(dens - want).max() > 1e-5 * numpy.abs(want).max() + 1e-12:
            i = int(numpy.abs(dens - want).argmax())
            raise Mismatch(f"{what}: density {dens[i]} at {grid[i]}, expected {want[i]}")
        n += 1
    return {"n": n, "traces": 1, "fails": []}


def record_fast(item):
    from curvlinops.papyan2020traces.spectrum import fast_lanczos

    rng = random.Random(item["seed"])
    numpy.random.seed(rng.randrange(2**31))
    out, starts = [], []
    for _ in range(item["count"]):
        f = rng.choice([1.0, 1.0, SMALL, 1 / SMALL])
        rec = hutch.Recorder(numpy.array(item["case"]["A"]) * f)
        flag = rng.random() < 0.5
        ev, U = fast_lanczos(rec, item["case"]["ncv"], use_eigh_tridiagonal=True) if flag else fast_lanczos(rec, item["case"]["ncv"])
        starts.append(hutch.vec(rec.seen[0]))
        out.append([(numpy.array(ev) / f).tolist(), numpy.array(U).tolist()])
    return {"n": item["count"], "fails": [], "starts": starts, "results": out}


def compare_fast(item):
    c = item["case"]
    A = numpy.array(c["A"], dtype=float)
    s = numpy.linalg.norm(A, 2)
    n = 0
    for r, (ev, U) in zip(item["quad"], item["results"]):
        T, b = jacobi(r)
        if len(b) and b.min() < 1e-3 * s:
            continue
        ev, U = numpy.array(ev), numpy.array(U)
        what = f"Lanczos runs of {c['A']} with {c['ncv']} vectors"
        if ev.shape != (c["ncv"],) or U.shape != (c["ncv"], c["ncv"]):
            raise Mismatch(f"{what}: shapes {ev.shape}, {U.shape}")
        if numpy.abs(U.T @ U - numpy.eye(c["ncv"])).max() > 1e-8:
            raise Mismatch(f"{what}: eigenvectors are not orthonormal")
        if numpy.abs(U @ numpy.diag(ev) @ U.T - T).max() > 1e-6 * s:
            raise Mismatch(f"{what}: tridiagonal matrix {(U @ numpy.diag(ev) @ U.T).tolist()}, expected {T.tolist()}")
        for j, m in enumerate(r["moments"]):
            got = float((U[0] ** 2 * ev**j).sum())
            if abs(got - fl(m)) > 1e-6 * s**j:
                raise Mismatch(f"{what}: moment {j} is {got}, expected {fl(m)}")
        n += 1
    return {"n": n, "traces": n, "fails": []}


def replay_law(item):
    """Start vectors are independent and uniform on the sphere."""
    from curvlinops.papyan2020traces.spectrum import fast_lanczos
    from scipy.stats import kstest

    rng = random.Random(item["seed"])
    numpy.random.seed(rng.randrange(2**31))
    rec = hutch.Recorder([[1, 0, 1], [0, -2, 1], [1, 1, 3]])
    V = []
    for _ in range(item["count"]):
        rec.seen = []
        fast_lanczos(rec, 2)
        V.append(rec.seen[0])
    V = numpy.array(V)
    for i in range(3):  # each coordinate of a uniform point on the sphere is uniform
        p = kstest(V[:, i], "uniform", args=(-1, 2)).pvalue
        if p < 1e-9:
            raise Mismatch(f"Lanczos start vectors are not uniform on the sphere (coordinate {i}, p = {p:.2g})")
    z = numpy.abs(V[1:].T @ V[:-1]).max() / (len(V) ** 0.5 / 3)
    if z > 7:
        raise Mismatch("successive Lanczos start vectors are correlated")
    return {"n": item["count"], "fails": []}


def replay_same(item):
    """Seeded calls: other operators of the same matrix, cached and uncached agree."""
    import curvlinops as cl

    rng = random.Random(item["seed"])
    n = 0
    for _ in range(item["count"]):
        dim = rng.randint(3, 8)
        A = symmetric(rng, dim)
        ncv = rng.randint(2, min(dim, 4))
        log = rng.random() < 0.5
        kw = {"num_points": rng.choice([7, 16]), "num_repeats": rng.randint(1, 3), "kappa": rng.choice([3.0, 1.5]), "margin": 0.05}
        bounds = rng.choice([{"boundaries": (0.25, 9.0) if log else (-9.0, 9.0)}, {"boundaries_tol": 0.0}])
        s = rng.randrange(2**31)
        op = hutch.plain(rng, A, ints=False)
        res = []
        for which in ("uncached", "cached", "other"):
            numpy.random.seed(s)
            M = op if which == "other" else hutch.Recorder(A)
            if which == "cached":
                e = (cl.LanczosApproximateLogSpectrumCached if log else cl.LanczosApproximateSpectrumCached)(M, ncv, **bounds)
                numpy.random.seed(s)
                f = e.approximate_log_spectrum if log else e.approximate_spectrum
                if rng.random() < 0.5:
                    f(num_points=5)
                res.append(f(**kw))
            else:
                f = cl.lanczos_approximate_log_spectrum if log else cl.lanczos_approximate_spectrum
                res.append(f(M, ncv, **bounds, **kw))
        for which, r in zip(("cached", type(op).__name__), res[1:]):
            for a, b, name in ((r[0], res[0][0], "grid"), (r[1], res[0][1], "density")):
                if not numpy.allclose(a, b, rtol=1e-5, atol=1e-7 * numpy.abs(b).max()):
                    raise Mismatch(f"{'log ' if log else ''}spectrum of {A} ({which}), ncv={ncv}, {kw}, {bounds}: {name} differs from the uncached one")
        n += 1
    return {"n": n, "fails": []}


def record_bounds(item):
    """Ends of the spectrum, some of them given."""
    from curvlinops.papyan2020traces.spectrum import approximate_boundaries, approximate_boundaries_abs

    rng = random.Random(item["seed"])
    numpy.random.seed(rng.randrange(2**31))
    out = []
    for _ in range(item["count"]):
        n = rng.randint(3, 7)
        A = symmetric(rng, n)
        for k in range(n):
            A[k][k] += item["shift"]
        e = numpy.linalg.eigvalsh(numpy.array(A, dtype=float))
        if numpy.abs(e).min() < 0.2:
            continue
        f = rng.choice([1.0, 1.0, SMALL, 1 / SMALL])
        M = numpy.array(A, dtype=float) * f
        M = M if rng.random() < 0.4 else hutch.Recorder(M)
        use_abs = rng.random() < 0.4
        given = rng.choice(["none", "null", "lo", "hi", "both"])
        glo, ghi = rng.choice([0.0, 0, -0.5, 1.25, -20]), rng.choice([30.0, 24, 0.0, 16.5])
        if use_abs:
            glo = abs(glo)
        kw = {}
        if given != "none":
            kw["boundaries"] = (glo * f if given in ("lo", "both") else None, ghi * f if given in ("hi", "both") else None)
        tol = rng.choice([None, 0.0, 1e-3])
        if tol is not None:
            kw["tol"] = tol
        got = (approximate_boundaries_abs if use_abs else approximate_boundaries)(M, **kw)
        if numpy.shape(got) != (2,) or not numpy.isfinite(got).all():
            raise Mismatch(f"boundaries of the spectrum of {A}: {got}")
        r = lambda v: (lambda q: [big(q.numerator), big(q.denominator)])(Fraction(float(v)))  # noqa: E731
        out.append({"A": A, "abs": use_abs, "given": given, "lo": r(got[0] / f), "hi": r(got[1] / f), "glo": r(glo), "ghi": r(ghi),
                    "tol": r((1e-6 if tol == 0.0 else 3 * (tol or 1e-2)) * numpy.abs(e).max()), "factor": f, "kw": str(kw)})
    return {"n": len(out), "fails": [], "cases": out}


def compare_bounds(item):
    for c, r in zip(item["cases"], item["recs"]):
        for side in ("lo", "hi"):
            if not r[side]:
                e = numpy.linalg.eigvalsh(numpy.array(c["A"], dtype=float))
                e = numpy.sort(numpy.abs(e)) if c["abs"] else e
                raise Mismatch(f"{side} boundary of the {'absolute ' if c['abs'] else ''}spectrum of {c['A']} * {c['factor']} with {c['kw']}: "
                               f"{fl(c[side]) * c['factor']}; the spectrum is {(e * c['factor']).tolist()}")
    return {"n": len(item["cases"]), "traces": len(item["cases"]), "fails": []}


def replay_density(item):
    """With full Lanczos runs the density integrates to one and sits at the eigenvalues."""
    import curvlinops as cl

    rng = random.Random(item["seed"])
    numpy.random.seed(rng.randrange(2**31))
    n = 0
    for _ in range(item["count"]):
        dim = rng.randint(3, 5)
        A = symmetric(rng, dim)
        M = numpy.array(A, dtype=float)
        ev = numpy.linalg.eigvalsh(M)
        kappa = 1.0 + 10.0 ** rng.choice([8, 30])
        grid, dens = cl.lanczos_approximate_spectrum(M, dim, num_points=4001, kappa=kappa, margin=0.3, num_repeats=2)
        mass = numpy.trapz(dens, grid) if hasattr(numpy, "trapz") else numpy.trapezoid(dens, grid)
        if abs(mass - 1) > 1e-3:
            raise Mismatch(f"spectral density of {A} integrates to {mass}")
        mean = (numpy.trapz if hasattr(numpy, "trapz") else numpy.trapezoid)(dens * grid, grid)
        if not ev[0] - 1e-2 <= mean <= ev[-1] + 1e-2:
            raise Mismatch(f"spectral density of {A} has mean {mean}")
        n += 1
    return {"n": n, "fails": []}


def make(rng, cid):
    n = rng.randint(3, 5)
    log, cached = rng.random() < 0.45, rng.random() < 0.65
    ncv = rng.randint(2, min(n, 4))
    given = rng.choice(["both", "both", "lo", "hi", "none"])
    if log:
        lo, hi = rng.choice([0.0, 0, 0.5, 1.25]), rng.choice([4.0, 7.5, 12])
    else:
        lo, hi = rng.choice([0.0, 0, -6.5, -3, 1.0]), rng.choice([4.0, 9.5, 12, 2])
        if given == "hi":
            hi = rng.choice([12, 15.5])
        if given == "lo":
            lo = rng.choice([-12.0, -20])
        if rng.random() < 0.3:
            if given == "both" and lo < 0:
                hi = rng.choice([0, 0.0])
    reqs = []
    for r in rng.sample([1, 1, 2, 3, 5, rng.randint(6, 12)], 3):
        reqs.append({"repeats": r, "points": rng.choice([2, 3, 8, 17]), "kappa": rng.choice([3.0, 3.0, 1.04, 1.5, 10.0]),
                     "margin": rng.choice([[1, 20], [1, 20], [0, 1], [1, 4], [1, 1]]), "eps": rng.choice([1e-5, 1e-5, 1e-2, 0.5])})
    reqs.append(dict(LIN, kappa=1.04 if (log and not cached) else 3.0, eps=1e-5, points=1024))
    reqs[-1]["repeats"] = rng.choice([1, 2])
    fails = sorted(rng.sample(range(0, 3 * ncv), 3)) if (cached or given == "both") else []
    return {"id": cid, "A": symmetric(rng, n), "ncv": ncv, "log": log, "cached": cached, "reqs": reqs, "fails": fails,
            "bounds": {"given": given, "lo": lo, "hi": hi}, "tol": rng.choice([None, 0.0, 1e-3]), "depth": 4, "starts": [],
            # multiplying everything by a power of two changes nothing but the scale
            "scale": rng.choice([1.0, 1.0, 1.0, SMALL, 1 / SMALL])}


def tla(c, **kw):
    keep = {k: c[k] for k in ("id", "A", "ncv", "cached", "fails", "depth", "starts")}
    keep["reqs"] = [{"repeats": q["repeats"], "points": q["points"], "margin": q["margin"]} for q in c["reqs"]]
    return {**keep, **kw}


def run(ctx):
    rng = ctx.rng()
    t = 6 if ctx.thorough else 1
    cases = [make(rng, i + 1) for i in range(40 * t)]
    hs = ctx.simulate("Lanczos", [tla(c) for c in cases], 24 if ctx.thorough else 4, 4)
    maps = ctx.tlc("Lanczos", [tla(c, depth=-1, fails=[]) for c in cases])
    items = []
    for c in cases:
        for h in hs.get(c["id"], [])[: 12 if ctx.thorough else 3]:
            items.append({"task": "life", "id": len(items) + 1, "case": c, "hist": h["hist"], "seed": f"{ctx.seed}/{len(items)}"})
    fast = []
    for i in range(16 * t):
        n = rng.randint(2, 6)
        fast.append({"task": "fast", "id": 100000 + i, "case": {"A": symmetric(rng, n), "ncv": rng.randint(2, min(n, 5))},
                     "count": 4, "seed": f"{ctx.seed}/f{i}"})
    for fn, its, cmp, name in ((record, items, compare, "life"), (record_fast, fast, compare_fast, "fast")):
        if ctx.only is not None and ctx.only.get("task") not in (name, name + "cmp"):
            continue
        if ctx.only is not None:
            its = [{k: v for k, v in ctx.only.items() if k not in ("quad", "results", "maps")} | {"task": name}]
            ctx.only = None
        res = ctx.pmap(fn, its)
        quad = ctx.tlc("Lanczos", [tla({"id": it["id"], "A": it["case"]["A"], "ncv": it["case"]["ncv"], "cached": False, "fails": [],
                                        "reqs": [], "depth": 0, "starts": r["starts"]}) for it, r in zip(its, res) if r.get("starts")])
        todo = []
        for it, r in zip(its, res):
            if r.get("results"):
                q = {x["start"]: x for x in quad[it["id"]]}
                todo.append(dict(it, task=name + "cmp", results=r["results"], quad=[q[i + 1] for i in range(len(q))],
                                 maps=maps[it["case"]["id"]][0]["maps"] if name == "life" else None))
        ctx.pmap(cmp, todo)
    ends = [{"task": "ends", "count": 8 * t, "shift": [0, 0, -3, -6, 2, 6, -1, 1][i], "seed": f"{ctx.seed}/b{i}"} for i in range(8)]
    if ctx.only is None or ctx.only.get("task") in ("ends", "endscmp"):
        if ctx.only is not None:
            ends = [{k: v for k, v in ctx.only.items() if k not in ("cases", "recs")} | {"task": "ends"}]
            ctx.only = None
        got = [(it, r["cases"]) for it, r in zip(ends, ctx.pmap(record_bounds, ends)) if r.get("cases")]
        flat = [c for _, cs in got for c in cs]
        recs = ctx.tlc("Bounds", [{k: v for k, v in c.items() if k not in ("factor", "kw")} | {"id": i + 1} for i, c in enumerate(flat)])
        pos, todo = 0, []
        for it, cs in got:
            todo.append(dict(it, task="endscmp", cases=cs, recs=[recs[pos + i + 1][0] for i in range(len(cs))]))
            pos += len(cs)
        ctx.pmap(compare_bounds, todo)
    ctx.sample({"case": tla(cases[0]), "history": items[0]["hist"]})
    ctx.pmap(replay_law, [{"task": "sphere", "count": 2500 * t, "seed": f"{ctx.seed}/l"}])
    ctx.pmap(replay_same, [{"task": "same", "count": 6 * t, "seed": f"{ctx.seed}/s{i}"} for i in range(8)])
    ctx.pmap(replay_density, [{"task": "density", "count": 3 * t, "seed": f"{ctx.seed}/d{i}"} for i in range(8)])
    ctx.assumptions.append("runs without breakdown (all off-diagonal entries above 1e-3 of the norm); exponentials and "
                           "logarithms of the density formula are evaluated in floating point")
