"""Operators for the interface specification (Interface.tla)."""

import math
import random

import nets
import riskops
import torch

SHAPES = [(), (1,), (2,), (1, 1), (2, 1), (1, 2), (2, 2), (3,), (2, 1, 2), (1, 1, 1)]
REAL = ["hess", "ggn", "ef", "mc", "jac", "jact", "kfac", "kfacinv", "act"]


def dense(case, dtype=torch.float64, scale=1.0, answer=None):
    """Operator of the package's base class for the case's matrix times ``scale``."""
    from curvlinops._torch_base import PyTorchLinearOperator

    class Dense(PyTorchLinearOperator):
        def __init__(self, ins, outs, A):
            super().__init__(ins, outs)
            self.A = A

        def _matmat(self, X):
            if answer is not None:
                return [t.clone() for t in answer]
            K = X[0].shape[-1]
            Y = self.A @ torch.cat([x.reshape(-1, K) for x in X])
            out, pos = [], 0
            for s in self._out_shape:
                out.append(Y[pos:pos + s.numel()].reshape(*s, K))
                pos += s.numel()
            return out

        def _adjoint(self):
            return Dense(self._out_shape, self._in_shape, self.A.T)

        def _infer_device(self):
            return torch.device("cpu")

        def _infer_dtype(self):
            return self.A.dtype

    A = (torch.tensor(case["A"], dtype=torch.float64) * scale).to(dtype)
    return Dense([tuple(s) for s in case["ins"]], [tuple(s) for s in case["outs"]], A)


def matrices(rng, count, mode, sizes=(1, 2), first=1, maxdim=9):
    """Cases with random shapes and small integer matrices."""
    out = []
    while len(out) < count:
        ins = [list(rng.choice(SHAPES)) for _ in range(rng.choice(sizes))]
        outs = [list(rng.choice(SHAPES)) for _ in range(rng.choice((1, 2, 3) if mode != "out" else sizes))]
        D = sum(math.prod(s) for s in ins)
        M = sum(math.prod(s) for s in outs)
        if max(D, M) > maxdim:
            continue
        if len(out) % 5 < 2 and (D != M or D == 1):  # square matrices, mostly not symmetric
            continue
        A = [[rng.randint(-2, 2) for _ in range(D)] for _ in range(M)]
        out.append({"id": first + len(out), "mode": mode, "ins": ins, "outs": outs, "A": A, "k": rng.choice([1, 2])})
    return out


def real_net(rng, kind, cid):
    """A small random network for a real operator of the package."""
    loss = rng.choice(["mse", "ce", "bce"])
    while True:
        arch = rng.choice(["linear", "scalar", "mlp", "conv"] if kind not in ("kfac", "kfacinv") else ["linear", "mlp"])
        c = nets.make_case(rng, arch, loss, rng.choice(["mean", "sum"]), rng.choice([1, 2, 3]), cid)
        if len(c["params"]) <= 4 and sum(map(len, c["params"])) <= 26:
            return c


def params_of(c, kind, rng):
    n = len(c["params"])
    k = rng.randint(1, min(n, 3))
    if kind in ("kfac", "kfacinv", "act"):
        return list(range(1, n + 1))
    return rng.sample(range(1, n + 1), k)


def build(c, kind, seed, dtype=torch.float64):
    """(operator, in shapes, out shapes) on a fresh model, determined by the seed."""
    import curvlinops as cl

    rng = random.Random(seed)
    model = nets.build_model(c, dtype)
    model.eval()
    allp = model.case_params()
    sel = params_of(c, kind, rng)
    params = [allp[i - 1] for i in sel]
    shapes = [tuple(p.shape) for p in params]
    N = len(c["x"])
    cut = rng.randint(1, N)
    split = [list(range(1, cut + 1))] + ([list(range(cut + 1, N + 1))] if cut < N else [])
    data = nets.batches(c, split, dtype)
    loss = nets.build_loss(c)
    kw = {"check_deterministic": False}
    zs = [(N, *c["zshape"])]
    if kind in ("hess", "ggn", "ef", "jac", "jact"):
        op = riskops.make_op(kind, model, loss, params, data, **kw)
        ins, outs = shapes, shapes
        if kind == "jac":
            outs = zs
        elif kind == "jact":
            ins = zs
            outs = shapes
    elif kind == "mc":
        op = cl.FisherMCLinearOperator(model, loss, params, data, mc_samples=2, seed=rng.randrange(1000), **kw)
        ins = outs = shapes
    elif kind in ("kfac", "kfacinv"):
        op = cl.KFACLinearOperator(model, loss, params, data, fisher_type=rng.choice(list(cl.FisherType)),
                                   separate_weight_and_bias=rng.random() < 0.5, **kw)
        ins = outs = shapes
        if kind == "kfacinv":
            op = cl.KFACInverseLinearOperator(op, damping=0.5)
    else:
        from curvlinops.experimental.activation_hessian import ActivationHessianLinearOperator

        X, y = nets.inputs(c, range(1, N + 1), dtype), nets.targets(c, range(1, N + 1), dtype)
        n = rng.randrange(len(c["layers"]) - 1) if len(c["layers"]) > 1 else 0
        name = model.index[n]
        got = {}
        h = model.get_submodule(name).register_forward_hook(lambda m, i, o: got.update(s=tuple(o.shape)))
        with torch.no_grad():
            model(X)
        h.remove()
        op = ActivationHessianLinearOperator(model, loss, (name, "output", 0), [(X, y)], **kw)
        ins = outs = [got["s"]]
    return op, [tuple(s) for s in ins], [tuple(s) for s in outs]


def shapes_of(c, kind, seed):
    """In and out shapes of ``build`` without running the code under test."""
    rng = random.Random(seed)
    sel = params_of(c, kind, rng)
    ps = [list(c["pshapes"][i - 1]) for i in sel]
    zs = [[len(c["x"]), *c["zshape"]]]
    if kind == "jac":
        return ps, zs
    if kind == "jact":
        return zs, ps
    if kind == "act":
        return None, None
    return ps, ps


def act_shapes(c, seed):
    """Feature shape used by ``build`` of an activation Hessian (forward pass only)."""
    rng = random.Random(seed)
    params_of(c, "act", rng)  # as in ``build``
    N = len(c["x"])
    rng.randint(1, N)
    n = rng.randrange(len(c["layers"]) - 1) if len(c["layers"]) > 1 else 0
    model = nets.build_model(c)
    got = {}
    model.get_submodule(model.index[n]).register_forward_hook(lambda m, i, o: got.update(s=list(o.shape)))
    with torch.no_grad():
        model(nets.inputs(c, range(1, N + 1)))
    return [got["s"]]


def reference(op, D):
    """Dense matrix from products with single flat unit vectors (float64)."""
    dt = op._infer_dtype()
    cols = [op @ torch.eye(D, dtype=dt)[i] for i in range(D)]
    return torch.stack([c.double() for c in cols], dim=1)

