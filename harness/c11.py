"""C11: the determinism check accepts deterministic set-ups and rejects all others."""

import contextlib
import copy
import io
import random

import torch
from core import Mismatch
from torch import nn

FOCUS = ["x", "y", "f", "gw", "gb", "aux"]
SHAPES = [(1,), (1, 1), (2,)]
OPS = ["hess", "ggn", "ef", "kfac", "mc", "jac", "jact"]


class Line(nn.Module):
    """f(x) = w x + b; behaves as announced by the data source."""

    def __init__(self, w, b, source, dtype):
        super().__init__()
        self.lin = nn.Linear(1, 1).to(dtype)
        with torch.no_grad():
            self.lin.weight.fill_(w)
            self.lin.bias.fill_(b)
        self.source = source

    def forward(self, X):
        mode = self.source.mode_of(X)
        x = X["x"] if not isinstance(X, torch.Tensor) else X
        if mode == "plain":
            return self.lin(x)
        if mode == "shift":
            return self.lin(x) + self.source.scale
        if mode == "neg":
            return -self.lin(x)
        w, b = self.lin.weight, self.lin.bias
        if mode == "gw":
            return 2 * x @ w.t() + b - (x @ w.t()).detach()
        return x @ w.t() + 2 * b - b.detach()


class Source:
    """Presents pass number k as told; passes may be traversed concurrently."""

    def __init__(self, c, dtype):
        self.dtype, self.as_dict, self.scale = dtype, c["dict"], c["scale"]
        self.pool = c["pool"]
        self.script = []
        self.started = 0
        self.modes = {}
        self.keep = []
        self.last = "plain"

    def mode_of(self, X):
        return self.modes.get(id(X), self.last)

    def batch(self, b):
        x = torch.tensor([[p[0]] for p in b["pts"]], dtype=self.dtype)
        y = torch.tensor([[p[1]] for p in b["pts"]], dtype=self.dtype) * self.scale
        X = x
        if self.as_dict:
            X = {"x": x}
            for key, v, shape in b["aux"]:
                dtype = torch.long if key % 2 else self.dtype
                X[f"aux{key}"] = torch.full(SHAPES[shape], v, dtype=dtype)
            X["name"] = "fixed"
        self.modes[id(X)] = b["mode"]
        self.keep.append(X)
        self.last = b["mode"]
        return X, y

    def __iter__(self):
        k = self.started
        self.started += 1
        which = self.script[k] if k < len(self.script) else self.script[-1]
        return self.run(self.pool[which - 1])

    def run(self, batches):
        for b in batches:
            yield self.batch(b)


class ScalarLine(Line):
    """The same function of parameters without dimensions."""

    def __init__(self, w, b, source, dtype):
        nn.Module.__init__(self)
        self.lin = nn.Module()
        self.lin.weight = nn.Parameter(torch.tensor(float(w), dtype=dtype))
        self.lin.bias = nn.Parameter(torch.tensor(float(b), dtype=dtype))
        self.source = source

    def forward(self, X):
        mode = self.source.mode_of(X)
        x = X["x"] if not isinstance(X, torch.Tensor) else X
        w, b = self.lin.weight, self.lin.bias
        if mode == "gw":
            return 2 * x * w + b - (x * w).detach()
        if mode == "gb":
            return x * w + 2 * b - b.detach()
        out = x * w + b
        return out if mode == "plain" else out + self.source.scale if mode == "shift" else -out


def construct(c, source, dtype, rng, check=True):
    import curvlinops as cl

    cls = ScalarLine if c["op"] != "kfac" and rng.random() < 0.4 else Line
    model = cls(c["w"] * c["scale"], c["b"] * c["scale"], source, dtype)
    params = [model.lin.weight, model.lin.bias]
    loss = nn.MSELoss(reduction=c["red"])
    kw = {"check_deterministic": check}
    if c["given"]:
        kw["num_data"] = c["n"]
    if source.as_dict:
        kw["batch_size_fn"] = lambda X: X["x"].shape[0]
    op = c["op"]
    if op == "hess":
        return cl.HessianLinearOperator(model, loss, params, source, **kw)
    if op == "ggn":
        return cl.GGNLinearOperator(model, loss, params, source, **kw)
    if op == "ef":
        return cl.EFLinearOperator(model, loss, params, source, **kw)
    if op == "mc":
        return cl.FisherMCLinearOperator(model, loss, params, source, mc_samples=5, **kw)
    if op == "jac":
        return cl.JacobianLinearOperator(model, params, source, **kw)
    if op == "jact":
        return cl.TransposedJacobianLinearOperator(model, params, source, **kw)
    return cl.KFACLinearOperator(
        model, loss, params, source, num_per_example_loss_terms=1,
        fisher_type=rng.choice(["type-2", "empirical", "forward-only"]), **kw)


def replay(item):
    c = item["case"]
    rng = random.Random(item["seed"])
    n = 0
    dtype = rng.choice([torch.float64, torch.float64, torch.float32])
    # how many passes precede those that are compared?
    s = Source(c, dtype)
    s.script = [1]
    construct(c, s, dtype, rng)
    early = s.started - (3 if c["op"] == "kfac" else 4)
    if early < 0:
        raise Mismatch(f"{c['op']}: construction with a determinism check made {s.started} passes only")
    for r in item["recs"]:
        s = Source(c, dtype)
        s.script = [rng.choice(c["same"])] * early + r["pick"]
        torch.manual_seed(rng.randrange(10**6))
        what = (f"{c['op']} (w={c['w']}, b={c['b']}, labels and parameters scaled by {c['scale']}, {c['red']}, num_data given: {c['given']}, {dtype}), passes "
                f"{s.script} of {c['pool']}, differences {r['why']}")
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                construct(c, s, dtype, rng)
            got = "accept"
        except RuntimeError:
            got = "reject"
        except Exception as e:
            if r["verdict"] != "error":
                raise Mismatch(f"{what}: {type(e).__name__}: {e}; expected {r['verdict']}")
            got = "error"
        want = r["verdict"]
        if got != want and not (want == "error" and got == "reject"):
            raise Mismatch(f"{what}: {got}, expected {want}")
        n += 1
    # without the check, anything is accepted
    if c["op"] not in ("kfac",):
        s = Source(c, dtype)
        s.script = [1, *(rng.randrange(1, len(c["pool"]) + 1) for _ in range(8))]
        construct(dict(c, given=True), s, dtype, rng, check=False)
        n += 1
    return {"n": n, "traces": len(item["recs"]), "fails": []}


def split(rng, pts, mode="plain", aux=()):
    out, i = [], 0
    while i < len(pts):
        k = rng.randint(1, len(pts) - i)
        out.append({"pts": pts[i:i + k], "mode": mode, "aux": list(aux)})
        i += k
    return out


def other_aux(rng, aux, k=None):
    """Further entries of a dictionary-like input that differ somewhere (or only in their order)."""
    aux = [a[:] for a in aux]
    k = k or rng.choice(["key", "value", "shape", "drop", "add", "order"])
    free = [i for i in range(6) if i not in [a[0] for a in aux]]
    if k == "add" or not aux:
        aux.append([rng.choice(free), rng.randint(0, 2), 0])
    elif k == "key":
        rng.choice(aux)[0] = rng.choice(free)
    elif k == "value":
        rng.choice(aux)[1] += rng.choice([1, 2, -1])
    elif k == "last":
        aux[-1][1] += 1
    elif k == "form":  # the same number in another shape
        rng.choice(aux)[2] = 1
    elif k == "shape":
        rng.choice(aux)[2] = rng.choice([1, 2])
    elif k == "drop":
        aux.pop(rng.randrange(len(aux)))
    else:
        rng.shuffle(aux)
    return aux


def make(rng, cid, op):
    n = rng.choice([2, 3, 3, 4])
    w, b = rng.randint(-2, 2), rng.randint(-1, 2)
    pts = []
    for _ in range(n):
        x = rng.randint(-2, 3)
        pts.append([x, w * x + b + rng.choice([0, 0, 1, -1, 2])])
    if rng.random() < 0.3:
        pts = [pts[0]] * n  # equal points
    if rng.random() < 0.25:  # no residuals: losses and gradients vanish
        pts = [[x, w * x + b] for x, _ in pts]
    focus = rng.choice(FOCUS) if op != "kfac" and rng.random() < (0.7 if op in ("mc", "jac", "jact") else 0.4) else ""
    if focus == "f":  # a sign change of the model only changes the predictions
        w, b = rng.choice([1, -1, 2]), rng.randint(-1, 2)
        pts = [[x, 0] for x, _ in pts]
    if focus == "x":  # inputs that do not matter for predictions
        w = 0
        pts = [[x, b] if op == "mc" else [x, y] for x, y in pts]
    if focus == "y" and op != "jac" and op != "jact":  # exchanged labels of equal inputs
        pts = [[pts[0][0], y] for _, y in pts]
        pts[1][1] += 1
    if focus in ("gw", "gb"):  # several batches with the same gradient
        pts = [pts[0][:] for _ in pts]
        pts = [[x or 1, y if y != w * (x or 1) + b else y + 1] for x, y in pts]
    as_dict = focus == "aux" or rng.random() < 0.3
    aux = [[k, rng.randint(0, 2), 0] for k in range(rng.choice([0, 1, 3]))] if as_dict else []
    if focus == "aux":
        aux = [[k, rng.randint(0, 2), 0] for k in rng.sample(range(5), 3)]
    ref = split(rng, pts, aux=aux)
    if focus in ("f", "x", "y"):
        ref = [{"pts": pts, "mode": "plain", "aux": aux}] if rng.random() < 0.5 or focus == "y" else ref
    if focus in ("gw", "gb"):
        ref = [{"pts": [p[:]], "mode": "plain", "aux": list(aux)} for p in pts]
    same = [ref]
    sh = pts[:]
    rng.shuffle(sh)
    same.append(split(rng, sh, aux=aux))
    pool = list(same)
    if focus in ("gw", "gb"):
        for i in rng.sample(range(n), 2):
            pool.append(copy.deepcopy(ref))
            pool[-1][i]["mode"] = focus
    elif focus:
        for how in rng.choice([["last", "form", "order"], ["last", "form", None]]) if focus == "aux" else [0, 0]:
            ps = copy.deepcopy(ref)
            bt = rng.choice(ps)
            if focus == "f":
                bt["mode"] = "neg"
            elif focus == "aux":
                bt["aux"] = other_aux(rng, bt["aux"], how)
            elif focus == "x":
                bt["pts"][rng.randrange(len(bt["pts"]))][0] += rng.choice([1, -1, 2])
            else:
                ys = [p[1] for p in bt["pts"]]
                k = rng.randrange(len(ys))
                bt["pts"] = [[p[0], y] for p, y in zip(bt["pts"], ys[k:] + ys[:k])]
            if ps not in pool:
                pool.append(ps)

    def altered():
        ps = copy.deepcopy(ref)
        bt = rng.choice(ps)
        i = rng.randrange(len(bt["pts"]))
        x, y = bt["pts"][i]
        f = w * x + b
        k = rng.choice(["x", "y", "mirror", "fit", "drop", "dup", "mode", "mode", "swap", "resplit", "aux", "exchange", "pair"])
        if k == "x":
            bt["pts"][i] = [x + rng.choice([1, -1]), y]
        elif k == "y":
            bt["pts"][i] = [x, y + rng.choice([1, -1])]
        elif k == "mirror":
            bt["pts"][i] = [x, 2 * f - y]
        elif k == "fit":
            x2 = x + rng.choice([1, -1, 2])
            bt["pts"][i] = [x2, w * x2 + b + (f - y)]
        elif k == "drop":
            del bt["pts"][i]
        elif k == "dup":
            bt["pts"].append([x, y])
        elif k == "mode":
            bt["mode"] = rng.choice(["shift", "gw", "gb", "neg"])
        elif k == "swap":
            ps.reverse()
        elif k == "resplit":
            ps = split(rng, [p for q in ps for p in q["pts"]], aux=aux)
        elif k == "aux" and as_dict:
            bt["aux"] = other_aux(rng, bt["aux"])
        elif k == "exchange":  # labels exchanged between points of the whole data set
            ys = [p[1] for q in ps for p in q["pts"]]
            rng.shuffle(ys)
            for q in ps:
                q["pts"] = [[p[0], ys.pop()] for p in q["pts"]]
        elif k == "pair" and len(bt["pts"]) >= 2:  # same gradient, other loss (if inputs agree)
            j = (i + 1) % len(bt["pts"])
            bt["pts"][i] = [x, y + 1]
            bt["pts"][j] = [bt["pts"][j][0], bt["pts"][j][1] - 1]
        return [q for q in ps if q["pts"]]

    while len(pool) < 6:
        ps = altered()
        if not ps or ps in pool:
            if rng.random() < 0.1:
                break
            continue
        if op == "kfac" and any(q["mode"] in ("gw", "gb", "neg") for q in ps):
            continue
        pool.append(ps)
    return {"id": cid, "op": op, "w": w, "b": b, "n": n, "pool": pool, "same": [1] if op in ("jac", "jact", "mc") else [1, 2],
            "red": rng.choice(["mean", "sum"]), "given": rng.random() < 0.5, "dict": as_dict, "scale": 1 if rng.random() < 0.6 else 2.0**-8}


def claims(recs, op):
    """Drop behaviours whose verdict depends on which passes serve losses or products."""
    by = {tuple(r["pick"]): r for r in recs}
    out = []
    for r in recs:
        p = r["pick"]
        if op == "kfac":
            out.append(dict(r, pick=p[:3]))
            continue
        o = by[(p[2], p[3], p[0], p[1])]
        if "open" in (r["verdict"], o["verdict"]):
            continue
        if r["verdict"] == o["verdict"]:
            out.append(r)
        elif {r["verdict"], o["verdict"]} == {"error", "reject"}:
            out.append(dict(r, verdict="error"))
    return out


def kind(r):
    w = r["why"]
    return (r["verdict"], tuple(sorted(w["batch"])), w["loss"], w["grad"], w["prod"])


def run(ctx):
    rng = ctx.rng()
    t = 6 if ctx.thorough else 1
    cases = []
    for op in OPS:
        for _ in range((16 if op in ("mc", "jac", "jact") else 10) * t):
            cases.append(make(rng, len(cases) + 1, op))
    recs = ctx.tlc("Loader", [{k: c[k] for k in ("id", "op", "w", "b", "n", "pool")} for c in cases])
    items, counts = [], {}
    for c in cases:
        groups = {}
        for r in claims(recs[c["id"]], c["op"]):
            groups.setdefault(kind(r), []).append(r)
            counts[r["verdict"]] = counts.get(r["verdict"], 0) + 1
        rs = [r for g in groups.values() for r in rng.sample(g, min(len(g), 12))]
        items.append({"task": "det", "case": c, "recs": rs, "seed": f"{ctx.seed}/{c['id']}"})
    ctx.notes["claimed_behaviours"] = counts
    ctx.sample({"case": {k: cases[0][k] for k in ("op", "pool")}, "behaviour": recs[1][-1]})
    ctx.pmap(replay, items)
    ctx.assumptions.append("differences are at least of relative size 1e-3 (the check's tolerance is 5e-5); "
                           "Monte-Carlo products are compared for equal splits only")
