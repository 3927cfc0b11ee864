"""C24: outer-product operators and projectors represent sum_i c_i a_i a_i^T."""

import random
from fractions import Fraction

import numpy
from core import Mismatch, big, decode

F = Fraction


def enc(M):
    return [[[big(x.numerator), big(x.denominator)] for x in row] for row in M]


def cayley(rng, n, div=1):
    """Random rational orthogonal matrix (I - S)(I + S)^-1, S skew-symmetric."""
    S = [[F(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            S[i][j] = F(rng.randint(-1, 1), div if rng.random() < 0.7 else 1)
            S[j][i] = -S[i][j]
    A = [[F(int(i == j)) + S[i][j] for j in range(n)] + [F(int(i == j)) - S[i][j] for j in range(n)]
         for i in range(n)]
    for k in range(n):
        p = next(i for i in range(k, n) if A[i][k])
        A[k], A[p] = A[p], A[k]
        A[k] = [x / A[k][k] for x in A[k]]
        for i in range(n):
            if i != k:
                A[i] = [x - A[i][k] * y for x, y in zip(A[i], A[k])]
    return [row[n:] for row in A]  # (I + S)^-1 (I - S)


def make(rng, cid, ortho, big=False):
    D = rng.randint(1, 5)
    if ortho:
        K = rng.randint(1, D)
        Q = cayley(rng, D, rng.choice([1, 1, 2**30]))  # also nearly aligned with the axes
        cols = rng.sample(range(D), K)
        A = [[row[j] for j in cols] for row in Q]
        c = [F(1)] * K
    else:
        K = rng.randint(1, 7)  # also more vectors than dimensions
        A = [[F(rng.randint(-2, 2)) for _ in range(K)] for _ in range(D)]
        c = [F(rng.randint(-4, 4), rng.choice([1, 1, 2])) for _ in range(K)]
    n = rng.randint(1, 4)
    X = [[F(rng.randint(-6, 6), rng.choice([1, 2, 4])) for _ in range(n)] for _ in range(D)]
    if D > 1 and rng.random() < 0.4:
        X[rng.randrange(D)] = [F(0)] * n
    return {"id": cid, "A": enc(A), "c": [[x.numerator, x.denominator] for x in c], "X": enc(X), "ortho": ortho}


def equal(got, want, what, tol=1e-10, bound=1.0):
    """Compare up to ``tol`` times the sizes ``bound`` of the entries' terms."""
    got = numpy.asarray(got)
    if got.shape != want.shape:
        raise Mismatch(f"{what}: shape {got.shape}, expected {want.shape}")
    if isinstance(bound, float):
        bound = max(bound, float(numpy.abs(want).max()))
    if not (numpy.abs(got.astype(float) - want) <= tol * bound + 1e-300).all():
        raise Mismatch(f"{what}: {got.tolist()}, expected {want.tolist()}")


def layout(rng, X):
    r = rng.random()
    if r < 0.3:
        return numpy.asfortranarray(X)
    if r < 0.5:
        return numpy.repeat(X, 2, axis=0)[::2]  # strided view
    return X


def replay(item):
    from curvlinops.outer import OuterProductLinearOperator, Projector

    rng = random.Random(item["seed"])
    n = 0
    c, rec = item["case"], item["rec"]
    M0, MX0 = numpy.array(decode(rec["M"])), numpy.array(decode(rec["MX"]))
    A, X0 = numpy.array(decode(c["A"])), numpy.array(decode(c["X"]))
    c0 = cs = numpy.array([p / q for p, q in c["c"]])
    D = M0.shape[0]
    BM0 = abs(A) @ numpy.diag(abs(c0)) @ abs(A).T  # sizes of the terms of an entry
    for dt in (numpy.float64, numpy.float32, numpy.int64):
        if dt == numpy.int64 and (c["ortho"] or (A != A.round()).any()):
            continue
        tol = 1e-4 if dt == numpy.float32 else 1e-10
        # powers of two change nothing but the scale
        wide = dt == numpy.float64
        fA = 0 if c["ortho"] or dt == numpy.int64 else rng.choice([0, 0, 40, -40] if wide else [0, 0, 10, -10])
        fX = 0 if dt == numpy.int64 else rng.choice([0, 0, 60, -60] if wide else [0, 0, 20, -20])
        M, MX, X = M0 * 4.0**fA, MX0 * 4.0**fA * 2.0**fX, X0 * 2.0**fX
        BM = BM0 * 4.0**fA
        BX = BM @ abs(X)
        # the same matrix, composed of terms of very different size
        k = [rng.choice([0, 20, -20, 40] if dt == numpy.float64 else [0, 20, -20]) for _ in cs]
        k = numpy.zeros(len(cs)) if c["ortho"] or dt == numpy.int64 or rng.random() < 0.5 else numpy.array(k, dtype=float)
        Ad = layout(rng, (A * 2.0**(k + fA)).astype(dt))
        cs = c0 * 4**-k
        cd = cs.astype(numpy.int64) if dt == numpy.int64 and (cs == cs.round()).all() else cs
        ops = [("outer", OuterProductLinearOperator(cd, Ad))]
        if c["ortho"]:
            ops.append(("projector", Projector(Ad)))
        before = Ad.copy()
        for name, P in ops:
            what = f"{name} (A={Ad.tolist()}, c={cs.tolist()}, {Ad.dtype})"
            if tuple(P.shape) != (D, D):
                raise Mismatch(f"{what}: shape {P.shape}")
            for view, B in (("", P), (".T", P.T), (".adjoint()", P.adjoint()), (".H.T", P.H.T)):
                for xdt in (numpy.float64, numpy.float32):
                    t = max(tol, 1e-4 if xdt == numpy.float32 else 0)
                    x = layout(rng, X.astype(xdt))
                    keep = x.copy()
                    w = f"{what}{view} x {x.dtype}"
                    equal(B @ x, MX, w + " matrix", t, BX)
                    equal(B.matmat(x), MX, w + " matmat", t, BX)
                    equal(B @ x[:, 0], MX[:, 0], w + " vector", t, BX[:, 0])
                    equal(B @ x[:, :1], MX[:, :1], w + " single column", t, BX[:, :1])
                    equal(B.matvec(x[:, :1]), MX[:, :1], w + " matvec of a column", t, BX[:, :1])
                    equal(B.matvec(x[:, -1]), MX[:, -1], w + " matvec", t, BX[:, -1])
                    equal(B.dot(x), MX, w + " dot", t, BX)
                    equal(B.rmatvec(x[:, 0]), MX[:, 0], w + " rmatvec", t, BX[:, 0])
                    equal(B.rmatmat(x), MX, w + " rmatmat", t, BX)
                    equal(x.T @ B, MX.T, w + " from the left", t, BX.T)
                    equal(x[:, 0] @ B, MX[:, 0], w + " vector from the left", t, BX[:, 0])
                    if not numpy.array_equal(x, keep):
                        raise Mismatch(w + ": input changed")
                    n += 11
            equal(P @ numpy.eye(D), M, what + " @ I", tol, BM)
            equal(P @ numpy.arange(D), M @ numpy.arange(D), what + " @ integers", tol, BM @ numpy.arange(D))
            if name == "projector":
                equal(P @ (P @ X), P @ X, what + " idempotent", tol, 2.0**fX)
                equal(P @ Ad, A, what + " fixes the basis", tol)
                equal(P @ (X - P @ X), numpy.zeros_like(X), what + " annihilates the complement", tol * 10 * 2.0**fX)
                equal((P @ P) @ X, MX, what + " composed", tol, 2.0**fX)
            n += 2
        if not numpy.array_equal(before, Ad):
            raise Mismatch("the matrix of columns was changed")
    return {"n": n, "traces": 1, "fails": []}


def run(ctx):
    rng = ctx.rng()
    cases = [make(rng, i + 1, i % 2 == 1) for i in range(160 * (10 if ctx.thorough else 1))]
    recs = ctx.tlc("Outer", cases)
    items = [{"task": "outer", "case": c, "rec": recs[c["id"]][0], "seed": f"{ctx.seed}/{c['id']}"} for c in cases]
    ctx.sample({"A": cases[0]["A"], "c": cases[0]["c"]})
    ctx.pmap(replay, items)
