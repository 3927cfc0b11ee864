"""C05: Jacobian and transposed Jacobian: entries, data order, adjoints."""

import live
import numpy as np
import riskops
import torch
from cmp import check_map, close


def replay(item):
    n = tr = 0
    for kind in ("jac", "jact"):
        k, t, rng, ex = riskops.replay_kind(kind, item, adjoint=0.6)
        n, tr = n + k, tr + t
    c = item["case"]
    sc = riskops.scale_of("jac", ex)
    # adjoint of the adjoint, SciPy adjoint products, and <J v, u> = <v, J^T u>
    for kind in ("jac", "jact"):
        split = rng.choice(ex.splits)
        s = rng.randrange(len(c["sels"]))
        op, shapes, _ = riskops.setup(kind, c, split, s, rng, torch.float64)
        M = riskops.expected(kind, ex, s, split)
        zs = [(len(c["x"]), *c["zshape"])]
        ins, outs = (shapes, zs) if kind == "jac" else (zs, shapes)
        n += check_map(op.adjoint().adjoint(), M, ins, outs, torch.float64, rng,
                       f"{kind}.adjoint().adjoint()", ks=(2,), scale=sc)
        sp = op.to_scipy()
        U = np.array([[rng.randint(-3, 3) for _ in range(3)] for _ in range(M.shape[0])], dtype=float)
        close(torch.from_numpy(np.asarray(sp.rmatmat(U))), M.T @ torch.from_numpy(U), f"{kind} rmatmat", scale=sc, tol=1e-9)
        close(torch.from_numpy(np.asarray(sp.rmatvec(U[:, 0]))), M.T @ torch.from_numpy(U[:, 0]), f"{kind} rmatvec", scale=sc, tol=1e-9)
        close(torch.from_numpy(np.asarray(sp.H @ U)), M.T @ torch.from_numpy(U), f"{kind} .H", scale=sc, tol=1e-9)
        n += 4
    return {"n": n, "traces": tr, "fails": []}


def run(ctx):
    riskops.run_kind(ctx, "jac", replay, losses=("mse", "ce"))
    live.run(ctx, ["jac", "jact"])
