"""C26: unsupported configurations are rejected, supported ones accepted (Config.tla)."""

import random
from collections import UserDict

import kfacs
import numpy
import torch
from core import Mismatch
from scipy.sparse.linalg import aslinearoperator
from torch import nn

FAMILIES = ["curv", "kfac", "inv", "est", "act", "sub", "load"]
OTHER = ("AttributeError", "TypeError", "KeyError")


class SubMSE(nn.MSELoss):
    """A user's own class of square loss."""


class Scale(nn.Module):
    def __init__(self, n):
        super().__init__()
        self.scale = nn.Parameter(torch.ones(n))

    def forward(self, x):
        return x * self.scale


class Net(nn.Module):
    """Linear layers (also on sequences), a scaling in between, dict inputs."""

    def __init__(self, dtype, last=False):
        super().__init__()
        self.first = nn.Linear(2, 3)
        self.norm = Scale(3)
        self.act = nn.Tanh()
        self.nested = nn.Sequential(nn.Linear(3, 3), nn.Identity(), nn.Linear(3, 2))
        self.last = last
        self.to(dtype)

    def forward(self, x):
        if not isinstance(x, torch.Tensor):
            x = x["x"]
        z = self.nested(self.act(self.norm(self.first(x))))
        return z.transpose(1, -1) if self.last and z.ndim > 2 else z


class Conv(nn.Module):
    def __init__(self, kernel, dtype):
        super().__init__()
        self.first = nn.Conv2d(1, 2, kernel, padding="same")
        self.act = nn.Tanh()
        self.nested = nn.Linear(18, 2)
        self.to(dtype)

    def forward(self, x):
        return self.nested(self.act(self.first(x)).flatten(1))


def loss_of(name, red="mean"):
    return {"mse": nn.MSELoss, "ce": nn.CrossEntropyLoss, "bce": nn.BCEWithLogitsLoss, "submse": SubMSE,
            "huber": nn.HuberLoss}[name](reduction=red) if name != "function" else nn.functional.mse_loss


def batches(rng, loss, dtype, sizes, wrap="tensor", soft=False, lens=None, conv=False):
    out = []
    for i, n in enumerate(sizes):
        mid = () if lens is None else (lens[i],)
        X = torch.randn(n, 1, 3, 3) if conv else torch.randn(n, *mid, 2)
        X = X.to(dtype)
        if loss == "ce":
            y = torch.randint(0, 2, (n, *mid))
        elif loss == "bce":
            y = torch.randint(0, 2, (n, *mid, 2)).to(dtype)
            if soft:
                y = y * 0.5 + 0.25
        else:
            y = torch.randn(n, *mid, 2).to(dtype)
        if wrap == "dict":
            X = {"x": X}
        elif wrap == "userdict":
            X = UserDict(x=X)
        out.append((X, y))
    return out


def size_fn(X):
    return X.shape[0] if isinstance(X, torch.Tensor) else X["x"].shape[0]


def finite(ts, what):
    for t in ts:
        t = torch.as_tensor(t)
        if not torch.isfinite(t.double()).all():
            raise Mismatch(f"{what}: answer {t.tolist()} is not finite")


def ask_operator(op, ask, rng, dtype):
    rows, cols = op.shape
    if ask == "gl":
        g, loss = op.gradient_and_loss()
        finite([*g, loss], "gradient and loss")
    elif ask == "trace":
        op.det, op.logdet  # may leave the range of floating point numbers
        for t in ("trace", "frobenius_norm"):
            finite([getattr(op, t)], t)
    elif ask == "export":
        S = op.to_scipy()
        y = S @ numpy.ones(cols)
        if y.shape != (rows,):
            raise Mismatch(f"exported product of shape {y.shape}, expected {(rows,)}")
        finite([y], "exported product")
    else:
        A = op.adjoint() if ask == "adjoint" else op
        x = torch.ones(A.shape[1], dtype=dtype) if rng.random() < 0.5 else torch.ones(A.shape[1], 2, dtype=dtype)
        y = A @ x
        if y.shape != (A.shape[0], *x.shape[1:]):
            raise Mismatch(f"product of shape {tuple(y.shape)}, expected {(A.shape[0], *x.shape[1:])}")
        finite([y], "product")


def curv(c, rng, dtype):
    import curvlinops as cl

    model = Net(dtype)
    seq = rng.random() < 0.3
    model.last = c["loss"] == "ce"
    sizes = rng.choice([[3], [2, 1], [1, 1, 1]])
    data = batches(rng, c["loss"], dtype, sizes, c["data"], c["soft"], [2] * len(sizes) if seq else None)
    params = [model.first.weight, model.first.bias, model.norm.scale, model.nested[0].weight]
    if c["blocks"] == "none" and rng.random() < 0.5:
        params = rng.sample(list(model.parameters()), rng.randint(1, 5))
    func = model if rng.random() < 0.6 else (lambda x: model(x))
    loss = loss_of(c["loss"], rng.choice(["mean", "sum"]))
    kw = {"check_deterministic": c["chk"], "progressbar": rng.random() < 0.2}
    if c["bsf"]:
        kw["batch_size_fn"] = size_fn
    if c["nd"]:
        kw["num_data"] = sum(sizes)
    sizes = {"none": None, "one": [4], "two": rng.choice([[1, 3], [2, 2], [3, 1]]), "each": [1, 1, 1, 1],
             "short": rng.choice([[3], [1, 2], [1]]), "long": rng.choice([[5], [2, 3], [1, 1, 1, 1, 1]]),
             "zero": rng.choice([[4, 0], [0, 4], [2, 0, 2]]), "negative": rng.choice([[5, -1], [-1, 5], [3, -2, 3]]),
             "empty": []}[c["blocks"]]
    if sizes is not None:
        kw["block_sizes"] = sizes
    cls = {"hess": cl.HessianLinearOperator, "ggn": cl.GGNLinearOperator, "ef": cl.EFLinearOperator,
           "mc": cl.FisherMCLinearOperator, "jac": cl.JacobianLinearOperator,
           "jact": cl.TransposedJacobianLinearOperator}[c["op"]]
    if c["op"] == "mc":
        kw["mc_samples"] = rng.choice([1, 2, 5])
    args = (func, params, data) if c["op"] in ("jac", "jact") else (func, loss, params, data)
    op = cls(*args, **kw)
    yield
    ask_operator(op, c["ask"], rng, dtype)


def kfac(c, rng, dtype):
    import curvlinops as cl

    conv = c["layer"] != "linear"
    if conv:
        model = Conv({"same": rng.choice([3, (1, 3)]), "uneven": rng.choice([2, (3, 2), (2, 1)])}[c["layer"]], dtype)
        layers = [model.first, model.nested]
    else:
        model = Net(dtype, last=c["loss"] == "ce")
        layers = [model.first, model.nested[0], model.nested[2]]
    sizes = [2, 1]
    lens = [2, 1] if c["ragged"] else None
    if not conv and not c["ragged"] and rng.random() < 0.4 and c["data"] == "tensor":
        lens = [2, 2]
    data = batches(rng, c["loss"], dtype, sizes, c["data"], c["soft"], lens, conv)
    params = [p for ly in layers for p in (ly.weight, ly.bias)]
    if c["params"] == "weights":
        params = [ly.weight for ly in layers]
    elif c["params"] == "biases":
        params = [ly.bias for ly in layers]
    elif c["params"] == "norm":
        params.insert(rng.randint(0, len(params)), model.norm.scale)
    elif c["params"] == "foreign":
        params.insert(rng.randint(0, len(params)), nn.Parameter(torch.zeros(2, dtype=dtype)))
    elif rng.random() < 0.5:
        rng.shuffle(params)
    enum = rng.random() < 0.5 and c["fisher"] != "bogus"
    red = rng.choice(["mean", "sum"])
    kw = {"fisher_type": cl.FisherType(c["fisher"]) if enum else rng.choice([c["fisher"], "type2", "MC", "FisherType.MC"])
          if c["fisher"] == "bogus" else c["fisher"],
          "mc_samples": c["samples"], "check_deterministic": c["chk"], "separate_weight_and_bias": c["sep"],
          "kfac_approx": rng.choice(["bogus", "Expand", "expand-reduce"]) if c["approx"] == "bogus"
          else rng.choice([c["approx"], cl.KFACType(c["approx"])])}
    if c["terms"]:
        kw["num_per_example_loss_terms"] = 1 if lens is None else 2
    if c["bsf"]:
        kw["batch_size_fn"] = size_fn
    if rng.random() < 0.4:
        kw["num_data"] = 3
    op = cl.KFACLinearOperator(model, loss_of(c["loss"], red), params, data, **kw)
    yield
    ask_operator(op, c["ask"], rng, dtype)


def inv(c, rng, dtype):
    import curvlinops as cl

    model = Net(dtype)
    params = [*model.first.parameters(), *model.nested.parameters()]
    data = batches(rng, "mse", dtype, [2, 2])
    loss = loss_of("mse", "mean")
    A = cl.KFACLinearOperator(model, loss, params, data, fisher_type=c["fisher"], separate_weight_and_bias=c["sep"],
                              check_deterministic=False)
    if c["of"] == "ggn":
        A = cl.GGNLinearOperator(model, loss, params, data, check_deterministic=False)
    elif c["of"] == "scipy":
        A = A.to_scipy()
    elif c["of"] == "inv":
        A = cl.KFACInverseLinearOperator(A, damping=0.5)
    kw = {"cache": c["cache"], "retry_double_precision": c["retry"]}
    if c["heur"] or rng.random() < 0.3:
        kw["use_heuristic_damping"] = c["heur"]
    if c["exact"] or rng.random() < 0.3:
        kw["use_exact_damping"] = c["exact"]
    if c["damping"] != "none":
        kw["damping"] = 0.5 if c["damping"] == "one" else (0.5, rng.choice([0.5, 0.25]))
    op = cl.KFACInverseLinearOperator(A, **kw)
    yield
    # without damping the factors may be singular
    if c["damping"] != "none":
        ask_operator(op, rng.choice(["product", "adjoint", "export"]), rng, dtype)


def est(c, rng, dtype):
    import curvlinops as cl

    A = numpy.random.rand(c["rows"], c["cols"])
    if c["form"] == "operator":
        A = aslinearoperator(A)
    elif c["form"] == "torch":
        from iface import dense

        A = dense({"A": A.tolist(), "ins": [(c["cols"],)], "outs": [(c["rows"],)]}).to_scipy()
    cls = {"tr": cl.HutchinsonTraceEstimator, "diag": cl.HutchinsonDiagonalEstimator,
           "fro": cl.HutchinsonSquaredFrobeniusNormEstimator, "pp": cl.HutchPPTraceEstimator}[c["op"]]
    kw = {}
    if c["op"] == "pp":
        if c["dim"] != "default":
            kw["basis_dim"] = {"one": 1, "full": c["cols"], "over": c["cols"] + rng.choice([1, 5])}[c["dim"]]
        kw["basis_distribution"] = c["basis"]
    e = cls(A, **kw)
    yield
    if c["prepare"]:
        e.maybe_compute_and_cache_subspace()
    r = e.sample(distribution=c["dist"]) if c["dist"] != "rademacher" or rng.random() < 0.5 else e.sample()
    want = (c["rows"],) if c["op"] == "diag" else ()
    if numpy.shape(r) != want:
        raise Mismatch(f"sample of shape {numpy.shape(r)}, expected {want}")
    finite([r], "sample")


def act(c, rng, dtype):
    from curvlinops.experimental.activation_hessian import ActivationHessianLinearOperator

    model = Net(dtype)
    name = {"": "", "first": "first", "nested": rng.choice(["nested", "nested.0", "nested.2", "act", "norm", "nested.1"]),
            "missing": rng.choice(["third", "nested.7", "first.weight", "Nested"])}[c["name"]]
    data = batches(rng, c["loss"], dtype, [2] * c["batches"], c["data"])
    io = c["io"] if c["io"] != "bogus" else rng.choice(["bogus", "Output", "", "inputs"])
    op = ActivationHessianLinearOperator(model, loss_of(c["loss"], rng.choice(["mean", "sum"])), (name, io, c["idx"]), data,
                                         check_deterministic=c["chk"])
    yield
    ask_operator(op, rng.choice(["product", "adjoint", "export"]), rng, dtype)


def lists(x, n, rng):
    return {"first": [0], "two": [0, 2], "swapped": [2, 0], "all": list(range(n)), "twice": [1, 0, 1],
            "beyond": rng.choice([[n], [0, n + 2]]), "negative": [-1, 0], "float": [0.0, 1], "string": ["0"],
            "numpy": [numpy.float64(1.0)]}[x]


def sub(c, rng, dtype):
    import curvlinops as cl

    A = aslinearoperator(numpy.random.rand(3, 4))
    r, q = lists(c["rows"], 3, rng), lists(c["cols"], 4, rng)
    if c["how"] == "construct":
        S = cl.SubmatrixLinearOperator(A, r, q)
    else:
        S = cl.SubmatrixLinearOperator(A, [1], [3, 1])
        S.set_submatrix(r, q)
    yield
    y = S @ numpy.ones(len(q))
    if y.shape != (len(r),):
        raise Mismatch(f"product of shape {y.shape}, expected {(len(r),)}")


def load(c, rng, dtype):
    import curvlinops as cl

    def op(loss, red, which="same", state=1):
        torch.manual_seed(state)
        model = Net(dtype)
        params = [*model.first.parameters(), *model.nested.parameters()]
        if which == "fewer":
            params = params[:-2]
        elif which == "reordered":
            params = params[::-1]
        data = batches(rng, loss, dtype, [2, 1])
        return cl.KFACLinearOperator(model, loss_of(loss, red), params, data, separate_weight_and_bias=c["sep"],
                                     check_deterministic=False, fisher_type="empirical")

    src = op(c["loss"], c["red"])
    dst = op(c["to"], c["tored"], c["params"], 2)
    if c["via"] == "inverse":
        src, dst = (cl.KFACInverseLinearOperator(A, damping=0.5) for A in (src, dst))
    if c["filled"]:
        src @ torch.ones(src.shape[1], dtype=dtype)
    state = src.state_dict()
    yield
    dst.load_state_dict(state)
    ask_operator(dst, "product", rng, dtype)


def replay(item):
    n = 0
    for rec in item["recs"]:
        c = rec["cfg"]
        rng = random.Random(f"{item['seed']}/{sorted(c.items())}")
        seed = rng.randrange(2**31)
        torch.manual_seed(seed)
        numpy.random.seed(seed)
        dtype = torch.float64 if rng.random() < 0.7 else torch.float32
        gen = globals()[item["fam"]](c, rng, dtype)
        stage, got = "construct", None
        try:
            next(gen)
            stage = "ask"
            next(gen, None)
        except Mismatch:
            raise
        except Exception as e:
            got = e
        what = f"configuration {c}"
        n += 1
        if got is None:
            if rec["late"]:
                raise Mismatch(f"{what} accepted, unsupported: {rec['why']}")
            continue
        name = [t.__name__ for t in type(got).__mro__]
        desc = f"{type(got).__name__} ({got}) on {stage}"
        if not rec["late"]:
            raise Mismatch(f"{what} is supported, but raised {desc}")
        if stage == "ask" and rec["must"]:
            raise Mismatch(f"{what} was constructed, unsupported: {rec['why']}; then {desc}")
        allowed = rec["early"] if stage == "construct" else rec["late"]
        if not set(name) & set(allowed):
            raise Mismatch(f"{what}: {desc}, documented for {rec['why']}: {allowed}")
    return {"n": n, "fails": [], "traces": n}


def run(ctx):
    recs = {}
    for f in FAMILIES:
        recs[f] = ctx.tlc("Config", [{"id": 1, "fam": f}])[1]
    ctx.exhaustive = True
    items = []
    rng = ctx.rng()
    reps = 3 if ctx.thorough else 1
    for f in FAMILIES:
        rs = sorted(recs[f], key=lambda r: sorted(map(str, r["cfg"].items())))
        rng.shuffle(rs)
        for rep in range(reps):
            for i in range(0, len(rs), 40):
                items.append({"task": "config", "fam": f, "recs": rs[i:i + 40], "seed": f"{ctx.seed}/{rep}"})
        ctx.notes[f"configurations_{f}"] = len(rs)
    ctx.sample(recs["kfac"][0])
    ctx.pmap(replay, items)
