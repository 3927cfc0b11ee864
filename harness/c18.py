"""C18: sub-matrix operators equal the indexed matrix for every index history."""

import itertools
import random

import numpy
from core import Mismatch
from scipy.sparse.linalg import LinearOperator, aslinearoperator


FINE = 1 + 2.0**-30


class Explicit(LinearOperator):
    """Operator that only knows products with flat vectors."""

    def __init__(self, A):
        super().__init__(A.dtype, A.shape)
        self.A = A

    def _matvec(self, x):
        return self.A @ x.reshape(-1)

    def _adjoint(self):
        return Explicit(self.A.conj().T)


def torch_op(A):
    """A PyTorch operator of the package exported to SciPy."""
    import torch
    from curvlinops._torch_base import PyTorchLinearOperator

    class Dense(PyTorchLinearOperator):
        def __init__(self, M):
            super().__init__([(M.shape[1],)], [(M.shape[0],)])
            self.M = M

        def _matmat(self, X):
            return [self.M @ X[0]]

        def _adjoint(self):
            return Dense(self.M.T)

        def _infer_device(self):
            return torch.device("cpu")

        def _infer_dtype(self):
            return self.M.dtype

    return Dense(torch.tensor(A)).to_scipy()


def operator(rng, A):
    """(operator representing a multiple of A, the factor); real or integer data type."""
    dt = rng.choice([numpy.float64, numpy.float64, numpy.float32, numpy.int64, numpy.int32])
    M = numpy.array(A, dtype=dt)
    k = rng.random()
    f = 1.0
    if (dt == numpy.float64 or k >= 0.8) and rng.random() < 0.5:
        f = rng.choice([FINE, FINE, 2.0**40, 2.0**-40])  # FINE is no number of lower precision
        M = M.astype(numpy.float64) * f
    if k < 0.5:
        return aslinearoperator(M), f
    if k < 0.8:
        return Explicit(M), f
    return torch_op(M.astype(numpy.float64)), f


def entry(e):
    return {"int": lambda v: int(v), "float": lambda v: float(v), "str": str, "none": lambda v: None}[e["t"]](e["v"])


def arr(rng, shape):
    dt = rng.choice([numpy.float64, numpy.float64, numpy.float32, numpy.int64, numpy.int32])
    n = 1
    for s in shape:
        n *= s
    v = [rng.randint(-4, 4) for _ in range(n)]
    X = numpy.array(v, dtype=dt).reshape(shape)
    if numpy.issubdtype(dt, numpy.floating):
        X = X / 4  # fractions must not be truncated by integer operators
        if rng.random() < 0.5:
            X = X.astype(dt)
    if len(shape) == 2 and rng.random() < 0.4:
        X = numpy.asfortranarray(X)
    return X


def equal(got, want, what, f=1.0):
    got = numpy.asarray(got)
    if got.shape != want.shape:
        raise Mismatch(f"{what}: shape {got.shape}, expected {want.shape}")
    tol = 1e-5 if f == 1.0 else 1e-12 * f
    if not numpy.allclose(got.astype(float), want, rtol=1e-5 if f == 1.0 else 1e-13, atol=tol):
        raise Mismatch(f"{what}: {got.tolist()}, expected {want.tolist()}")


def products(S, M, kind, rng, what, f=1.0):
    m, n = M.shape
    M = M * f
    what = f"{what}, matrix times {f}"
    if tuple(S.shape) != (m, n):
        raise Mismatch(f"{what}: shape {S.shape}, expected {(m, n)}")
    k = rng.choice([1, 2, 3, 3, 5, 7])

    def run(op, mat, ks):
        """vector, column and matrix products of op against mat."""
        p = mat.shape[1]
        for form in ks:
            X = arr(rng, {"v": (p,), "c": (p, 1), "m": (p, k)}[form])
            keep = X.copy()
            call = rng.choice(["@", "dot", "method"])
            if call == "@":
                Y = op @ X
            elif call == "dot":
                Y = op.dot(X)
            else:
                Y = op.matmat(X) if form == "m" else op.matvec(X)
            equal(Y, mat @ X.astype(float), f"{what} {kind} {form} {X.dtype} via {call}", f)
            if not numpy.array_equal(X, keep):
                raise Mismatch(f"{what}: {kind} changed its input")

    if kind == "matvec":
        run(S, M, "v")
    elif kind == "column":
        run(S, M, "c")
    elif kind in ("matmat", "dot"):
        run(S, M, "m")
    elif kind == "rmatvec":
        x = arr(rng, (m,))
        equal(S.rmatvec(x), M.T @ x.astype(float), f"{what} rmatvec", f)
        run(S.adjoint(), M.T, "vc")
    elif kind == "rmatmat":
        X = arr(rng, (m, k))
        equal(S.rmatmat(X), M.T @ X.astype(float), f"{what} rmatmat", f)
        run(S.H, M.T, "m")
    elif kind == "transpose":
        run(S.T, M.T, "vm")
    else:
        run(S.adjoint().adjoint(), M, "vcm")


def replay(item):
    from curvlinops import SubmatrixLinearOperator

    rng = random.Random(item["seed"])
    c = item["case"]
    n = 0
    for h in item["hists"]:
        A, f = operator(rng, c["A"])
        S = kept = None
        lists = []
        for pos, ev in enumerate(h):
            what = f"A={c['A']} ({type(A).__name__}, {A.dtype}), history {h[:pos + 1]}"
            if ev["e"] in ("make", "set"):
                conv = rng.choice([list, list, tuple])
                r = conv(entry(x) for x in c["rpool"][ev["r"] - 1])
                q = conv(entry(x) for x in c["cpool"][ev["c"] - 1])
                if ev["e"] == "make":
                    S = SubmatrixLinearOperator(A, r, q)
                    shape_now = (len(r), len(q))
                    lists = [r, q]
                elif ev["ok"]:
                    S.set_submatrix(r, q)
                    shape_now = (len(r), len(q))
                    lists = [r, q]
                else:
                    for attempt in (lambda: S.set_submatrix(r, q), lambda: SubmatrixLinearOperator(A, r, q)):
                        try:
                            attempt()
                        except ValueError:
                            pass
                        else:
                            raise Mismatch(f"{what}: invalid index lists {r}, {q} accepted")
                if tuple(S.shape) != shape_now:
                    raise Mismatch(f"{what}: shape {S.shape}, expected {shape_now}")
            elif ev["e"] == "mutate":
                for li in lists:
                    if isinstance(li, list):
                        li.reverse()
                        li.append(0)
            elif ev["e"] == "keep":
                kept = S.adjoint()
            elif ev["e"] == "use":
                M = numpy.array(ev["M"], dtype=float).reshape(shape_now)
                products(S, M, ev["k"], rng, what, f)
            else:
                M = numpy.array(ev["M"], dtype=float)
                if M.size:
                    products(kept, M.T, "matvec", rng, what, f)
                    products(kept, M.T, "rmatvec", rng, what, f)
            n += 1
    return {"n": n, "traces": len(item["hists"]), "fails": []}


def nested(item):
    """Sub-matrices of sub-matrices and of an adjoint."""
    from curvlinops import SubmatrixLinearOperator

    rng = random.Random(item["seed"])
    n = 0
    for _ in range(item["count"]):
        m, k = rng.randint(2, 5), rng.randint(2, 5)
        D = [[rng.randint(-3, 3) for _ in range(k)] for _ in range(m)]
        A, f = operator(rng, D)
        r1 = rng.sample(range(m), rng.randint(1, m))
        c1 = rng.sample(range(k), rng.randint(1, k))
        S1 = SubmatrixLinearOperator(A, r1, c1)
        M1 = numpy.array(D, dtype=float)[r1, :][:, c1]
        if rng.random() < 0.4:
            S1, M1 = S1.adjoint(), M1.T
        r2 = rng.sample(range(M1.shape[0]), rng.randint(1, M1.shape[0]))
        c2 = rng.sample(range(M1.shape[1]), rng.randint(1, M1.shape[1]))
        S2 = SubmatrixLinearOperator(S1, r2, c2)
        M2 = M1[r2, :][:, c2]
        if rng.random() < 0.5:  # the inner operator is redefined with the same shape
            rr, cc = [*range(S1.shape[0])], [*range(S1.shape[1])]
            S3 = SubmatrixLinearOperator(S1, rr, cc)
            products(S3, M1, "matmat", rng, "identity sub-matrix", f)
        for kind in ("matvec", "column", "matmat", "rmatvec", "rmatmat", "transpose"):
            products(S2, M2, kind, rng, f"sub-matrix {r2},{c2} of sub-matrix {r1},{c1} of {D}", f)
            n += 1
    return {"n": n, "fails": []}


def pool(rng, n):
    I = lambda l: [{"t": "int", "v": v} for v in l]  # noqa: E731, E741
    good = [I(p) for r in range(1, n + 1) for p in itertools.permutations(range(n), r)]
    picks = rng.sample(good, min(3, len(good)))
    bad = [I([0, 0]), I([n]), I([-1]), I([0, n - 1, 0] if n > 1 else [0, 0]), I([*range(n), n]),
           [{"t": "float", "v": 0}], [{"t": "int", "v": 0}, {"t": "str", "v": 1}], [{"t": "none", "v": 0}], I([0, -n])]
    return picks + rng.sample(bad, 2)


def run(ctx):
    rng = ctx.rng()
    cases = []
    for i in range(24 * (6 if ctx.thorough else 1)):
        m, n = rng.randint(1, 5), rng.randint(1, 5)
        A = [[rng.randint(-3, 3) for _ in range(n)] for _ in range(m)]
        cases.append({"id": i + 1, "A": A, "rpool": pool(rng, m), "cpool": pool(rng, n), "depth": 3})
    recs = ctx.tlc("Submatrix", cases[:8])  # every history of length 3
    long = [dict(c, depth=12 if ctx.thorough else 9) for c in cases]
    sim = ctx.simulate("Submatrix", long, 60 if ctx.thorough else 20, 13)
    items = []
    for c in cases:
        hs = [r["hist"] for r in recs.get(c["id"], [])]
        hs = rng.sample(hs, min(len(hs), 1500)) + [r["hist"] for r in sim.get(c["id"], [])]
        for k in range(0, len(hs), 300):
            items.append({"task": "sub", "case": c, "hists": hs[k:k + 300], "seed": f"{ctx.seed}/{c['id']}/{k}"})
    ctx.sample({"A": cases[0]["A"], "history": items[0]["hists"][0]})
    ctx.pmap(replay, items)
    ctx.pmap(nested, [{"task": "nested", "count": 60, "seed": f"{ctx.seed}/n{k}"} for k in range(8)])
    ctx.assumptions.append("empty index lists and inputs without columns are not covered")
