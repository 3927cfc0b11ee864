"""Running the randomised estimators and recording what they apply."""

import math
from fractions import Fraction

import numpy
from c18 import Explicit, torch_op
from core import Mismatch
from scipy.sparse import csr_matrix
from scipy.sparse.linalg import LinearOperator, aslinearoperator


class Boom(Exception):
    pass


class Recorder(LinearOperator):
    """Operator that records every vector applied to it and can fail."""

    def __init__(self, A, dtype=numpy.float64):
        self.A = numpy.array(A, dtype=dtype)
        super().__init__(self.A.dtype, self.A.shape)
        self.seen = []
        self.fail_at = None

    def _matvec(self, x):
        x = numpy.asarray(x).reshape(-1)
        if self.fail_at is not None and len(self.seen) >= self.fail_at:
            raise Boom()
        self.seen.append(numpy.array(x, dtype=float))
        return self.A @ x

    def _rmatvec(self, x):
        return self.A.T @ numpy.asarray(x).reshape(-1)


def plain(rng, A, ints=True):
    """The same matrix as something else ``@`` works with."""
    M = numpy.array(A, dtype=rng.choice([numpy.float64, numpy.float64, numpy.int64] if ints else [numpy.float64]))
    kinds = [lambda: M, lambda: csr_matrix(M), lambda: aslinearoperator(M), lambda: Explicit(M)]
    if M.dtype == numpy.float64:
        kinds.append(lambda: torch_op(M))
    return rng.choice(kinds)()


def estimator(est, A, **kw):
    import curvlinops as cl

    return {"tr": cl.HutchinsonTraceEstimator, "diag": cl.HutchinsonDiagonalEstimator,
            "fro": cl.HutchinsonSquaredFrobeniusNormEstimator, "pp": cl.HutchPPTraceEstimator}[est](A, **kw)


def sample(e, dist, rng):
    """One sample; the default distribution is also left out."""
    if dist == "rademacher" and rng.random() < 0.5:
        return e.sample()
    return e.sample(distribution=dist) if rng.random() < 0.5 else e.sample(dist)


def vec(x):
    """Exact rationals of floating point numbers."""
    out = []
    for f in numpy.asarray(x, dtype=float).reshape(-1).tolist():
        if not math.isfinite(f):
            raise Mismatch(f"non-finite number {f}")
        q = Fraction(f)
        out.append([v if abs(v) < 2**31 else str(v) for v in (q.numerator, q.denominator)])
    return out


def matrix(rng, rows, cols, kind="any"):
    if kind == "any":
        return [[rng.randint(-4, 4) for _ in range(cols)] for _ in range(rows)]
    if kind == "sym":
        B = matrix(rng, rows, rows)
        return [[B[min(i, j)][max(i, j)] for j in range(rows)] for i in range(rows)]
    r = rng.randint(1, max(1, rows - 1))  # symmetric of low rank
    V = [[rng.randint(-2, 2) for _ in range(rows)] for _ in range(r)]
    s = [rng.choice([-1, 1, 2]) for _ in range(r)]
    return [[sum(s[k] * V[k][i] * V[k][j] for k in range(r)) for j in range(rows)] for i in range(rows)]


def history(rng, est, A, m, basis, events):
    """Replay a list of requests on a fresh recorded estimator; returns the recorded events."""
    dt = numpy.float64
    rec = Recorder(A, dt)
    kw = {"basis_dim": m, "basis_distribution": basis} if est == "pp" else {}
    if est == "pp" and basis == "rademacher" and rng.random() < 0.3:
        kw.pop("basis_distribution")
    e = estimator(est, rec, **kw)
    if rec.seen:
        raise Mismatch("the constructor multiplied with the operator")
    out = []
    for ev in events:
        rec.seen, rec.fail_at = [], ev.get("at")
        try:
            if ev["e"] == "prepare":
                r = e.maybe_compute_and_cache_subspace()
            else:
                r = sample(e, ev["dist"], rng)
            raised = False
        except Boom:
            raised = True
        rec.fail_at, seen = None, [vec(x) for x in rec.seen]
        if raised:
            out.append({"e": "fail", "seen": seen})
        elif ev["e"] == "prepare":
            out.append({"e": "prepare", "seen": seen})
        else:
            shape = (len(A),) if est == "diag" else ()
            if numpy.shape(r) != shape:
                raise Mismatch(f"{est}: sample of shape {numpy.shape(r)}, expected {shape}")
            if not seen:
                raise Mismatch(f"{est}: a sample without any product with the operator")
            out.append({"e": "sample", "dist": ev["dist"], "seen": seen, "out": vec(r)})
    return out


# ------------------------------------------------------------- statistics
def chi2_sf(x, k):
    from scipy.stats import chi2

    return chi2.sf(x, k)


def uniform_test(counts, probs, what, level=1e-9):
    """Pearson's test of observed counts against probabilities (dicts)."""
    total = sum(counts.values())
    extra = [c for c in counts if c not in probs]
    if extra:
        raise Mismatch(f"{what}: outcome {extra[0]} is impossible")
    stat = sum((counts.get(c, 0) - total * p) ** 2 / (total * p) for c, p in probs.items())
    if len(probs) > 1 and chi2_sf(stat, len(probs) - 1) < level:
        worst = max(probs, key=lambda c: abs(counts.get(c, 0) - total * probs[c]) / (total * probs[c]) ** 0.5)
        raise Mismatch(f"{what}: frequencies do not fit ({total} draws, statistic {stat:.1f} with {len(probs) - 1} "
                       f"degrees of freedom); {worst}: {counts.get(worst, 0)} instead of {total * probs[worst]:.0f}")


def normal_test(X, what):
    """Are the rows of ``X`` independent standard normal vectors?"""
    from scipy.stats import kstest

    X = numpy.asarray(X, dtype=float)
    T, n = X.shape

    def z(values, mean, var, label):
        s = (numpy.mean(values) - mean) / (var / len(values)) ** 0.5
        if abs(s) > 6.5:
            raise Mismatch(f"{what}: {label} is {numpy.mean(values):.4f} instead of {mean} ({s:.1f} standard errors)")

    z(X.reshape(-1), 0, 1, "mean")
    z(X.reshape(-1) ** 2, 1, 2, "second moment")
    z(X.reshape(-1) ** 4, 3, 96, "fourth moment")
    z(((X**2).sum(1) - n) ** 2, 2 * n, 8 * n**2 + 48 * n, "variance of the squared norm")
    for i in range(n):
        z(X[:, i], 0, 1, f"mean of entry {i}")
        z(X[:, i] ** 2, 1, 2, f"second moment of entry {i}")
        for j in range(n):
            if j < i:
                z(X[:, i] * X[:, j], 0, 1, f"covariance of entries {i}, {j}")
            for lag in (1, 2):
                z(X[lag:, i] * X[:-lag, j], 0, 1, f"covariance over {lag} draws of entries {i}, {j}")
    p = kstest(X.reshape(-1), "norm").pvalue
    if p < 1e-9:
        raise Mismatch(f"{what}: distribution is not standard normal (Kolmogorov-Smirnov p = {p:.2g})")
