"""Comparison of operators of the code under test with expected matrices."""

import math

import torch
from core import Mismatch

TOL = {
    torch.float64: 1e-9,
    torch.float32: 2e-4,
    torch.float16: 3e-2,
    torch.bfloat16: 1.5e-1,
}

FLOOR = {torch.float64: 1e-12, torch.float32: 1e-7}


def close(actual, expected, what, tol=None, scale=None):
    """Raise Mismatch unless ``actual`` (tensor) equals ``expected`` (float64 tensor)."""
    if not isinstance(actual, torch.Tensor):
        raise Mismatch(f"{what}: result is {type(actual).__name__}, not a tensor")
    if tuple(actual.shape) != tuple(expected.shape):
        raise Mismatch(f"{what}: shape {tuple(actual.shape)}, expected {tuple(expected.shape)}")
    if tol is None:
        tol = TOL[actual.dtype]
    if expected.numel() == 0:
        return
    a = actual.detach().to(torch.float64)
    e = expected.to(torch.float64)
    s = float(e.abs().max()) if scale is None else scale
    # vanishing values are squares of rounding errors
    s = max(s, FLOOR.get(actual.dtype, 1e-4))
    if not torch.isfinite(a).all():
        raise Mismatch(f"{what}: non-finite result {a.tolist()}")
    err = (a - e).abs()
    if float(err.max()) > tol * s:
        i = int(err.flatten().argmax())
        raise Mismatch(
            f"{what}: entry {i} is {float(a.flatten()[i])!r}, expected {float(e.flatten()[i])!r} "
            f"(max error {float(err.max()):.3g}, scale {s:.3g})"
        )


def split_list(flat, shapes, lead=0):
    """Split a (D, ...) tensor into tensors of the given shapes (+ trailing dims)."""
    out, pos = [], 0
    for s in shapes:
        n = math.prod(s)
        out.append(flat[pos : pos + n].reshape((*s, *flat.shape[1:])))
        pos += n
    return out


def cat_list(ts, shapes):
    return torch.cat([t.reshape((math.prod(s), *t.shape[len(s):])) for t, s in zip(ts, shapes)])


def rand_int(rng, shape, dtype):
    n = math.prod(shape)
    v = torch.tensor([rng.randint(-3, 3) for _ in range(n)], dtype=torch.float64)
    return v.reshape(shape).to(dtype)


def check_map(op, M, in_shapes, out_shapes, dtype, rng, what, eye=True, ks=(1, 2), lists=True,
              vectors=True, scale=None, tol=None):
    """Products of ``op`` in all formats equal those of the dense matrix ``M``.

    Returns the number of products executed.
    """
    n = 0
    D_in = M.shape[1]
    in_shapes = [tuple(s) for s in in_shapes]
    out_shapes = [tuple(s) for s in out_shapes]
    if tuple(op.shape) != tuple(M.shape):
        raise Mismatch(f"{what}: operator shape {tuple(op.shape)}, expected {tuple(M.shape)}")
    sc = float(M.abs().max()) * 3 if scale is None else scale
    if eye:
        close(op @ torch.eye(D_in, dtype=dtype), M, f"{what} @ I", scale=sc, tol=tol)
        n += 1
    if vectors:
        v = rand_int(rng, (D_in,), dtype)
        close(op @ v, M @ v.double(), f"{what} @ vector", scale=sc, tol=tol)
        n += 1
        if lists:
            got = op @ split_list(v, in_shapes)
            same_list(got, split_list(M @ v.double(), out_shapes), f"{what} @ vector list", sc, tol)
            n += 1
    if rng.random() < 0.02:  # many columns
        ks = (*ks, rng.choice([40, 70, 130, 270]))
    for k in ks:
        X = rand_int(rng, (D_in, k), dtype)
        if rng.random() < 0.3:  # other memory layouts
            X = X.t().contiguous().t()
        close(op @ X, M @ X.double(), f"{what} @ matrix with {k} columns", scale=sc, tol=tol)
        n += 1
        if lists:
            got = op @ split_list(X, in_shapes)
            same_list(got, split_list(M @ X.double(), out_shapes),
                      f"{what} @ matrix list with {k} columns", sc, tol)
            n += 1
    return n


def same_list(got, expected, what, scale=None, tol=None):
    if not isinstance(got, (list, tuple)) or len(got) != len(expected):
        raise Mismatch(f"{what}: expected a list of {len(expected)} tensors, got {type(got).__name__}")
    for i, (g, e) in enumerate(zip(got, expected)):
        close(g, e, f"{what}, tensor {i}", scale=scale, tol=tol)
