"""C19: iterative inverses solve the system to the configured accuracy."""

import contextlib
import io
import random

import numpy
import torch
from c18 import Explicit, torch_op
from core import Mismatch, decode, fl
from scipy.sparse.linalg import aslinearoperator

DEFAULT = {
    "cg": {"tol": [1, 100000], "atol": [1, 100000], "maxiter": -1, "x0": [], "M": []},
    "lsmr": {"damp": [0, 1], "maxiter": -1, "x0": []},
    "neumann": {"terms": 100, "scale": [1, 1], "nan": True, "blow": False},
}


def operator(rng, A):
    M = numpy.array(A, dtype=numpy.float64)
    k = rng.random()
    return aslinearoperator(M) if k < 0.4 else Explicit(M) if k < 0.7 else torch_op(M)


def make_inverse(c, A, rng):
    import curvlinops as cl

    return {"cg": cl.CGInverseLinearOperator, "lsmr": cl.LSMRInverseLinearOperator,
            "neumann": cl.NeumannInverseLinearOperator}[c["kind"]](A)


class Calls:
    def __init__(self):
        self.n = 0
        self.last = None

    def __call__(self, xk):
        self.n += 1
        self.last = numpy.array(xk)


def set_hp(inv, c, h, rng, cb):
    """Call the setter with the options the setting mentions, leaving defaults out."""
    kind, kw = c["kind"], {}
    d = DEFAULT[kind]
    if kind == "cg":
        if h["tol"] != d["tol"]:
            kw["tol"] = h["tol"][0] / h["tol"][1]
        if h["given_atol"]:
            kw["atol"] = h["atol"][0] / h["atol"][1]
        if h["maxiter"] >= 0:
            kw["maxiter"] = h["maxiter"]
        if h["x0"]:
            kw["x0"] = numpy.array(h["x0"], dtype=float)
        if h["M"]:
            P = numpy.diag([p / q for p, q in h["M"]])
            kw["M"] = P if rng.random() < 0.5 else aslinearoperator(P)
        if cb is not None:
            kw["callback"] = cb
        inv.set_cg_hyperparameters(**kw)
    elif kind == "lsmr":
        if h["damp"][0]:
            kw["damp"] = h["damp"][0] / h["damp"][1]
        if h["maxiter"] >= 0:
            kw["maxiter"] = h["maxiter"]
        if h["x0"]:
            kw["x0"] = numpy.array(h["x0"], dtype=float)
        if h["tight"]:
            kw.update(atol=1e-14, btol=1e-14)
            if rng.random() < 0.5:
                kw["conlim"] = 1e12
        inv.set_lsmr_hyperparameters(**kw)
    else:
        scale = 1e200 if h["blow"] else h["scale"][0] / h["scale"][1]
        if h["terms"] != 100 or rng.random() < 0.3:
            kw["num_terms"] = h["terms"]
        if scale != 1.0:
            kw["scale"] = scale
        if not h["nan"]:
            kw["check_nan"] = False
        inv.set_neumann_hyperparameters(**kw)
    return kw


def accept(c, h, want, x, b, A, norms, what):
    """Is ``x`` an admissible answer for right-hand side ``b``?"""
    x = numpy.asarray(x, dtype=float)
    if not numpy.isfinite(x).all():
        raise Mismatch(f"{what}: result {x.tolist()}")
    e = numpy.array([fl(r) for r in want["x"]])
    res = numpy.linalg.norm(b - A @ x)
    if c["kind"] == "neumann":
        T, P, grow = numpy.eye(len(A)) - h["scale"][0] / h["scale"][1] * A, numpy.eye(len(A)), 1.0
        for _ in range(h["terms"]):  # growth of rounding errors
            P = T @ P
            grow += numpy.linalg.norm(P)
        tol = 1e-9 + 1e-13 * grow * (h["terms"] + 1)
        if tol > 1e-3:
            return
        if numpy.abs(x - e).max() > tol * max(norms["neu"], numpy.abs(e).max(), 1e-12):
            raise Mismatch(f"{what}: {x.tolist()}, expected {e.tolist()}")
        return
    if c["kind"] == "cg":
        thr = max(h["atol"][0] / h["atol"][1], h["tol"][0] / h["tol"][1] * numpy.linalg.norm(b))
        r = fl(want["r2"]) ** 0.5
        if h["maxiter"] < 0 and res > thr * (1 + 1e-6) + 1e-12 * norms["A"]:
            raise Mismatch(f"{what}: residual {res:.3g} exceeds {thr:.3g}")
        if abs(r - thr) < 1e-6 * thr:
            return  # the stopping decision is on the edge
        if numpy.abs(x - e).max() > 1e-7 * max(numpy.abs(e).max(), 1.0):
            raise Mismatch(f"{what}: {x.tolist()}, expected iterate {want['its']}: {e.tolist()}")
        return
    if h["maxiter"] >= 0 or h["tight"]:
        tol = 1e-6
    else:
        # stopping rules of LSMR at its default tolerances, times the inverse's norm
        tol = 20 * 1e-6 * (norms["cond"] + 1)
        if not h["damp"][0]:
            lim = 10 * 1e-6 * (numpy.linalg.norm(b) + norms["A"] * numpy.linalg.norm(x)) + 1e-12
            if res > lim:
                raise Mismatch(f"{what}: residual {res:.3g} exceeds {lim:.3g}")
    s = max(numpy.abs(e).max(), 1e-3 * numpy.linalg.norm(b))
    if numpy.abs(x - e).max() > tol * max(s, 1e-12) * (norms["cond"] if h["maxiter"] >= 0 else 1):
        raise Mismatch(f"{what}: {x.tolist()}, expected {e.tolist()}")


def replay(item):
    c, table = item["case"], item["table"]
    rng = random.Random(item["seed"])
    A0 = numpy.array(c["A"], dtype=float)
    sv = numpy.linalg.svd(A0, compute_uv=False)
    norms = {"A": numpy.linalg.norm(A0), "cond": sv[0] / sv[-1], "neu": 1.0}
    n = 0
    for hist in item["hists"]:
        A = operator(rng, c["A"])
        inv = make_inverse(c, A, rng)
        other = make_inverse(c, A, rng)  # keeps the default settings
        if tuple(inv.shape) != A0.shape or inv.dtype != A.dtype:
            raise Mismatch(f"{c['kind']}: shape {inv.shape}, dtype {inv.dtype}")
        cb = None
        for pos, ev in enumerate(hist):
            if ev["e"] == "set":
                cb = Calls() if c["kind"] == "cg" and rng.random() < 0.3 else None
                set_hp(inv, c, c["hps"][ev["h"] - 1], rng, cb)
                continue
            h = c["hps"][ev["h"] - 1]
            what = f"{c['kind']} inverse of {c['A']}, setting {h}, history {hist[:pos + 1]}, right-hand sides {c['bs']}"
            bs = [numpy.array(c["bs"][j - 1], dtype=float) for j in ev["cols"]]
            dt = rng.choice([float, float, numpy.int64]) if c["kind"] != "lsmr" else float
            X = {"vec": lambda: bs[0], "info": lambda: bs[0], "col": lambda: bs[0][:, None],
                 "mat": lambda: numpy.stack(bs, axis=1)}[ev["f"]]().astype(dt)
            keep = X.copy()
            if cb is not None:
                cb.n = 0
            with contextlib.redirect_stdout(io.StringIO()):
                if c["kind"] == "neumann" and h["blow"]:
                    with numpy.errstate(all="ignore"):
                        try:
                            Y = inv @ X
                            raised = False
                        except ValueError:
                            raised = True
                        free = make_inverse(c, A, rng)  # NaNs never disappear again
                        set_hp(free, c, dict(h, nan=False), rng, None)
                        Z = free @ X
                    if raised != (h["nan"] and bool(numpy.isnan(Z).any())):
                        raise Mismatch(f"{what}: {'raised' if raised else 'did not raise'}, result without check: {Z}")
                    if not raised and not numpy.array_equal(Y, Z, equal_nan=True):
                        raise Mismatch(f"{what}: result {Y} instead of {Z}")
                    n += 1
                    continue
                if ev["f"] == "info":
                    out = inv.matvec_with_info(X)
                    if len(out) != 8:
                        raise Mismatch(f"{what}: {len(out)} values instead of 8")
                    Y = out[0]
                    if h["maxiter"] >= 0 and out[2] > max(h["maxiter"], 1):
                        raise Mismatch(f"{what}: {out[2]} iterations")
                else:
                    Y = inv @ X if rng.random() < 0.7 else inv.dot(X)
            if Y.shape != X.shape:
                raise Mismatch(f"{what}: result shape {Y.shape}, expected {X.shape}")
            if not numpy.array_equal(X, keep):
                raise Mismatch(f"{what}: the right-hand side was changed")
            Y2 = Y[:, None] if Y.ndim == 1 else Y
            its = 0
            for col, j in enumerate(ev["cols"]):
                want = table[ev["h"] - 1][j - 1]
                norms["neu"] = numpy.abs(bs[col]).max()
                accept(c, h, want, Y2[:, col], bs[col], A0, norms, what + f", column {col}")
                its += want["its"]
            if cb is not None and len(ev["cols"]) == 1 and cb.n == 0 and its > 0:
                raise Mismatch(f"{what}: the callback was never called")
            n += 1
        # the other operator still works with its defaults
        j = rng.randrange(len(c["bs"]))
        b = numpy.array(c["bs"][j], dtype=float)
        norms["neu"] = numpy.abs(b).max()
        if not (c["kind"] == "neumann" and item["wild"]):
            accept(c, c["hps"][0], table[0][j], other @ b, b, A0, norms, f"default {c['kind']} inverse of {c['A']}, b={b}")
        n += 1
    return {"n": n, "traces": len(item["hists"]), "fails": []}


def replay_real(item):
    """Inverses of damped curvature operators exported to SciPy."""
    import curvlinops as cl
    import iface
    import nets

    rng = random.Random(item["seed"])
    c = item["net"]
    n = 0
    model = nets.build_model(c)
    params = model.case_params()
    data = nets.batches(c, [list(range(1, len(c["x"]) + 1))])
    G = cl.GGNLinearOperator(model, nets.build_loss(c), params, data, check_deterministic=False)
    D = G.shape[0]
    G0 = iface.reference(G, D).numpy()
    delta = rng.choice([0.1, 1.0]) * max(numpy.abs(G0).max(), 1.0)
    A = G.to_scipy() + aslinearoperator(delta * numpy.eye(D))
    A0 = G0 + delta * numpy.eye(D)
    b = numpy.array([rng.randint(-3, 3) for _ in range(2 * D)], dtype=float).reshape(D, 2)
    cg = cl.CGInverseLinearOperator(A)
    ls = cl.LSMRInverseLinearOperator(A)
    eig = numpy.linalg.eigvalsh(A0)
    ne = cl.NeumannInverseLinearOperator(A, num_terms=4000, scale=1.0 / eig[-1])
    for name, inv, tol in (("cg", cg, 1e-5), ("lsmr", ls, 1e-5 * eig[-1] / eig[0]), ("neumann", ne, 1e-6)):
        for X in (b[:, 0], b[:, :1], b):
            Y = inv @ X
            if Y.shape != X.shape:
                raise Mismatch(f"{name} inverse of a damped GGN: shape {Y.shape}, expected {X.shape}")
            for x, y in zip(numpy.atleast_2d(X.T), numpy.atleast_2d(Y.T)):
                r = numpy.linalg.norm(A0 @ y - x)
                if r > max(tol * numpy.linalg.norm(x), 1.01e-5):
                    raise Mismatch(f"{name} inverse of a damped GGN ({c['arch']}): relative residual {r:.3g}")
            n += 1
    return {"n": n, "fails": []}


def replay_hard(item):
    """Badly conditioned systems: CG without a limit runs on until the residual is small."""
    import curvlinops as cl

    rng = random.Random(item["seed"])
    gen = numpy.random.default_rng(rng.randrange(2**31))
    n = 0
    for _ in range(item["count"]):
        dim, e = rng.choice([(5, 5), (6, 5), (6, 6), (8, 5), (8, 6)])
        Q = numpy.linalg.qr(gen.normal(size=(dim, dim)))[0]
        A = (Q * numpy.logspace(0, e, dim)) @ Q.T
        A = (A + A.T) / 2
        B = gen.integers(-3, 4, (dim, 3)).astype(float)
        B[0, B[0] == 0] = 1.0
        inv = cl.CGInverseLinearOperator(aslinearoperator(A) if rng.random() < 0.5 else Explicit(A))
        kw = {}
        for _ in range(rng.randint(0, 3)):  # the last call counts
            kw = {}
            if rng.random() < 0.6:
                kw["x0"] = gen.integers(-2, 3, dim).astype(float)
            if rng.random() < 0.3:
                kw["tol"] = rng.choice([1e-4, 1e-3])
            if rng.random() < 0.2:
                kw["callback"] = Calls()
            inv.set_cg_hyperparameters(**kw)
        tol = kw.get("tol", 1e-5)
        what = f"CG inverse of {A.tolist()} with {kw}"
        for X in (B[:, 0], B[:, :1], B):
            Y = inv @ X
            for x, y in zip(numpy.atleast_2d(X.T), numpy.atleast_2d(Y.T)):
                r = numpy.linalg.norm(A @ y - x) / numpy.linalg.norm(x)
                if r > 2 * max(tol, 1e-5 / numpy.linalg.norm(x)):
                    raise Mismatch(f"{what}, right-hand side {x.tolist()}: relative residual {r:.3g}")
                n += 1
    return {"n": n, "fails": []}


def spd(rng, n):
    while True:
        R = [[rng.randint(-1, 2) for _ in range(n)] for _ in range(n)]
        d = rng.randint(1, 2)
        A = [[sum(R[k][i] * R[k][j] for k in range(n)) + d * (i == j) for j in range(n)] for i in range(n)]
        if numpy.linalg.cond(numpy.array(A, dtype=float)) < 60:
            return A


def make(rng, cid, kind):
    n = rng.choice([1, 2, 3, 3, 4]) if kind != "lsmr" else rng.choice([2, 3, 3])
    spin = False
    if kind == "cg":
        A = spd(rng, n)
    elif kind == "lsmr":
        while True:
            A = [[rng.randint(-3, 3) for _ in range(n)] for _ in range(n)]
            a = numpy.array(A, dtype=float)
            if abs(numpy.linalg.det(a)) > 0.5 and numpy.linalg.cond(a) < 30:
                break
    else:
        A = spd(rng, n) if rng.random() < 0.6 else [[rng.randint(-2, 2) for _ in range(n)] for _ in range(n)]
        if rng.random() < 0.25:  # I - A is a rotation: partial sums never settle
            P = rng.choice([[[0, 1], [-1, 0]], [[0, -1], [1, -1]], [[1, -1], [1, 0]], [[-1, 0], [0, -1]]])
            n, A, spin = 2, [[(i == j) - P[i][j] for j in range(2)] for i in range(2)], True
    bs = []
    while len(bs) < 3:
        b = [rng.randint(-4, 4) for _ in range(n)]
        if any(b):
            bs.append(b)
    if kind != "lsmr" and rng.random() < 0.4:
        bs[rng.randrange(3)] = [0] * n
    wild = False
    x0 = [rng.randint(-2, 2) for _ in range(n)]
    if not any(x0):
        x0[0] = 1
    d = DEFAULT[kind]
    if kind == "cg":
        M = [[1, A[i][i]] for i in range(n)]
        hps = [dict(d, given_atol=False)]
        for extra in rng.sample([
            {"tol": [1, 10]}, {"tol": [1, 10**9]}, {"maxiter": 1}, {"maxiter": 2}, {"maxiter": 0}, {"x0": x0},
            {"M": M}, {"atol": [3, 1], "given_atol": True}, {"atol": [0, 1], "given_atol": True, "tol": [3, 10]},
            {"x0": x0, "maxiter": 1}, {"M": M, "maxiter": 1}, {"M": M, "x0": x0, "maxiter": 2},
            {"tol": [1, 2], "maxiter": 3},
        ], 5):
            h = dict(d, given_atol=False, **{})
            h.update(extra)
            if not h["given_atol"]:
                h["atol"] = h["tol"]  # SciPy: an absent absolute tolerance equals the relative one
            hps.append(h)
    elif kind == "lsmr":
        hps = [dict(d, tight=False)]
        for extra in rng.sample([
            {"tight": True}, {"damp": [1, 1], "tight": True}, {"damp": [3, 2], "tight": True}, {"maxiter": 1, "tight": True},
            {"maxiter": 2, "tight": True}, {"x0": x0, "tight": True}, {"x0": x0, "maxiter": 1, "tight": True},
            {"damp": [2, 1], "maxiter": 1, "tight": True}, {"damp": [1, 2], "tight": False},
        ], 5):
            hps.append(dict(d, **{**{"tight": False}, **extra}))
    else:
        lmax = max(abs(numpy.linalg.eigvals(numpy.array(A, dtype=float))))
        s = [1, int(numpy.ceil(lmax)) + 1]
        hps = [dict(d)]
        for extra in rng.sample([
            {"terms": 0}, {"terms": 0, "scale": s}, {"terms": 0, "scale": [-3, 2]}, {"terms": 1}, {"terms": 2, "scale": s}, {"terms": 5, "scale": s}, {"scale": s},
            {"terms": 3, "scale": [1, 2]}, {"terms": 30, "scale": s, "nan": False}, {"terms": rng.randint(1, 5), "blow": True},
            {"terms": rng.randint(3, 24), "blow": True}, {"terms": rng.randint(2, 12), "blow": True, "nan": False}, {"terms": 4, "scale": [-1, 3]}, {"terms": 7},
            {"terms": rng.randint(200, 900), "blow": True}, {"terms": rng.randint(500, 900), "blow": True},
        ], 7):
            hps.append(dict(d, **extra))
        if spin:
            hps[1] = dict(d, terms=rng.randint(130, 1000))
            hps[2] = dict(d, terms=rng.randint(600, 1100))
        # the default number of terms and scale only where they do not diverge
        wild = bool(lmax > 1.9) and not spin
        if wild:
            hps[0] = dict(hps[0], terms=2)
    return {"id": cid, "kind": kind, "A": A, "bs": bs, "hps": hps, "depth": 0}, wild


def run(ctx):
    rng = ctx.rng()
    t = 12 if ctx.thorough else 3
    cases, wild = [], {}
    for kind in ("cg", "lsmr", "neumann"):
        for _ in range(16 * t):
            c, w = make(rng, len(cases) + 1, kind)
            if w:  # the first setting is then not the operator's default
                c["hps"][0] = dict(c["hps"][0])
            cases.append(c)
            wild[c["id"]] = w
    vals = ctx.tlc("IterInv", cases)
    hs = ctx.simulate("IterInv", [dict(c, depth=10) for c in cases], 40 if ctx.thorough else 12, 10)
    items = []
    for c in cases:
        hists = [r["hist"] for r in hs.get(c["id"], [])]
        if wild[c["id"]]:  # begin with an explicit setting
            hists = [[{"e": "set", "h": 1}, *h] for h in hists]
        items.append({"task": "iter", "case": c, "table": vals[c["id"]][0]["table"], "hists": hists,
                      "wild": wild[c["id"]], "seed": f"{ctx.seed}/{c['id']}"})
    ctx.sample({"case": cases[0], "history": items[0]["hists"][0], "solution": vals[1][0]["solution"][0]})
    ctx.pmap(replay, items)
    import iface

    ctx.pmap(replay_real, [{"task": "real", "net": iface.real_net(rng, "ggn", 0), "seed": f"{ctx.seed}/r{i}"}
                           for i in range(60 if ctx.thorough else 10)])
    ctx.pmap(replay_hard, [{"task": "hard", "count": 12 * t, "seed": f"{ctx.seed}/h{i}"} for i in range(8)])
    ctx.assumptions.append("exact comparison for condition numbers below 60, residuals only up to 1e6; absolute tolerance None means SciPy's rule (equal to the relative one)")


__all__ = ["torch", "decode"]
