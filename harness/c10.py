"""C10: using an operator changes nothing but its result (Frame.tla)."""

import contextlib
import copy
import hashlib
import random

import kfacs
import nets
import numpy
import torch
from core import MachineryError
from lifes import Boom, Data, HardBoom, Trip, op_fault
from scipy.sparse.linalg import aslinearoperator

ARCHS = ["mlp", "linear", "conv", "seq", "deep"]
TORCH = ["vec", "mat", "list", "listm", "adj", "adjlist", "np", "npmat", "npadj"]
LAZY = ["hess", "ggn", "ef", "mc", "jac", "jact", "act"]
SCIPY = ["sub", "cg", "lsmr", "neu", "outer"]
USER = ["update", "change", "grad", "mode", "rng", "backward", "hook"]


def pool(kind):
    if kind in ("cg", "lsmr", "neu"):
        return ["np", "npmat"]
    if kind in ("sub", "outer"):
        return ["np", "npmat", "npadj"]
    out = list(TORCH)
    if kind not in ("jac", "jact", "inv"):
        out.append("gl")
    if kind == "kfac":
        out += ["trace", "det", "logdet", "frob", "state"]
    if kind == "inv":
        out.append("state")
    return out


class Counted(Trip):
    """Counts every forward pass."""

    def forward(self, x):
        y = self.inner(x)
        if self.arm is not None:
            kind, _, exc = self.arm
            self.arm[1] -= 1
            if self.arm[1] == 0:
                if kind == "model":
                    raise exc("model")

                def hook(g):
                    raise exc("backward")

                if y.requires_grad:
                    y.register_hook(hook)
        return y


class World:
    """Everything the caller owns; the same seed gives the same world."""

    def __init__(self, sc, version=1):
        rng = random.Random(sc["seed"])
        c = self.case = sc["net"]
        self.sc = sc
        self.dtype = torch.float64
        m = self.model = nets.build_model(c, self.dtype)
        m.final = Counted(m.final)
        m.register_buffer("level", torch.tensor(2.0, dtype=self.dtype))
        m.mods[0].register_buffer("steps", torch.arange(3))
        self.ps = m.case_params()
        self.params = [self.ps[k - 1] for k in sc["sel"]]
        for p in self.ps:
            if p not in set(self.params) and sc["freeze"] and rng.random() < 0.5:
                p.requires_grad_(False)
        for v in range(1, version):
            self.update(v)
        for mod in m.modules():
            mod.training = rng.random() < 0.5
        for p in self.ps:
            if rng.random() < 0.5:
                p.grad = torch.full_like(p, float(rng.randint(-3, 3)))
        self.calls = []
        for mod in m.modules():
            r = rng.random()
            if r < 0.3:
                mod.register_forward_hook(lambda *a: self.calls.append(1))
            if 0.2 < r < 0.5:
                mod.register_forward_pre_hook(lambda *a: self.calls.append(2))
        for p in self.ps:
            if p.requires_grad and rng.random() < 0.3:
                p.register_hook(lambda g: self.calls.append(3))
        self.loss = nets.build_loss(c)
        inner = self.loss.forward
        self.loss_arm = None

        def forward(*a, **k):
            if self.loss_arm is not None:
                self.loss_arm[0] -= 1
                if self.loss_arm[0] == 0:
                    raise self.loss_arm[1]("loss")
            return inner(*a, **k)

        self.loss.forward = forward
        self.data = Data(nets.batches(c, sc["split"], self.dtype))
        self.bases, self.ops = {}, []
        for o in sc["ops"]:
            self.ops.append(self.build(o))
        self.args = [[[self.argument(i, q, rng) for _ in range(sc["nargs"])] for q in sc["qs"][i]]
                     for i in range(len(self.ops))]
        self.exports = [None] * len(self.ops)
        self.held = []

    # ----------------------------------------------------------- operators
    def build(self, o):
        import curvlinops as cl
        from curvlinops.experimental.activation_hessian import ActivationHessianLinearOperator

        kw = {"check_deterministic": False}
        kind = o["real"]
        a = (self.model, self.loss, self.params, self.data)
        if kind == "hess":
            if o["blocks"]:
                kw["block_sizes"] = o["blocks"]
            return cl.HessianLinearOperator(*a, **kw)
        if kind in ("ggn", "ef"):
            return (cl.GGNLinearOperator if kind == "ggn" else cl.EFLinearOperator)(*a, **kw)
        if kind == "mc":
            return cl.FisherMCLinearOperator(*a, mc_samples=o["mc"], seed=o["seed"], **kw)
        if kind == "jac":
            return cl.JacobianLinearOperator(self.model, self.params, self.data, **kw)
        if kind == "jact":
            return cl.TransposedJacobianLinearOperator(self.model, self.params, self.data, **kw)
        if kind == "act":
            return ActivationHessianLinearOperator(self.model, self.loss, (self.model.index[0], "output", 0), self.data, **kw)
        if kind in ("kfac", "inv"):
            b = o["base"]
            if b not in self.bases:
                g = self.sc["bases"][b - 1]
                self.bases[b] = cl.KFACLinearOperator(
                    *a, fisher_type=kfacs.fisher_type(g["fisher"]), kfac_approx=kfacs.kfac_type(g["approx"]),
                    separate_weight_and_bias=g["sep"], mc_samples=g["mc"], num_per_example_loss_terms=self.case["R"], **kw)
            if kind == "kfac":
                return self.bases[b]
            return cl.KFACInverseLinearOperator(self.bases[b], cache=o["cache"], **o["damp"])
        if kind == "outer":
            r = random.Random(o["seed"])
            D = sum(p.numel() for p in self.params)
            self.outer_c = numpy.array([float(r.randint(1, 3)) for _ in range(2)])
            self.outer_A = numpy.array([[float(r.randint(-2, 2)) for _ in range(2)] for _ in range(D)])
            from curvlinops.outer import OuterProductLinearOperator

            return OuterProductLinearOperator(self.outer_c, self.outer_A)
        A = cl.GGNLinearOperator(*a, **kw).to_scipy()
        D = A.shape[0]
        if kind == "sub":
            r = random.Random(o["seed"])
            self.rows = r.sample(range(D), min(D, 3))
            self.cols = r.sample(range(D), min(D, 2))
            return cl.SubmatrixLinearOperator(A, self.rows, self.cols)
        B = A + aslinearoperator(4.0 * numpy.eye(D))
        if kind == "cg":
            return cl.CGInverseLinearOperator(B)
        if kind == "lsmr":
            return cl.LSMRInverseLinearOperator(B)
        return cl.NeumannInverseLinearOperator(B, num_terms=3, scale=1e-3)

    def argument(self, i, q, rng):
        op = self.ops[i]
        if q in ("gl", "trace", "det", "logdet", "frob", "state"):
            return None
        rows, cols = op.shape
        n = rows if q in ("adj", "adjlist", "npadj") else cols
        K = 2
        val = lambda k: [float(rng.randint(-3, 3)) for _ in range(k)]  # noqa: E731
        if q in ("vec", "adj"):
            return torch.tensor(val(n), dtype=self.dtype) if rng.random() < 0.7 else \
                torch.tensor(val(2 * n), dtype=self.dtype)[::2]
        if q == "mat":
            t = torch.tensor([val(n) for _ in range(K)], dtype=self.dtype).T
            return t.contiguous() if rng.random() < 0.5 else t
        if q in ("list", "listm", "adjlist"):
            shapes = op._out_shape if q == "adjlist" else op._in_shape
            tail = (K,) if q == "listm" else ()
            return [torch.tensor(val(s.numel() * (K if tail else 1)), dtype=self.dtype).reshape(*s, *tail) for s in shapes]
        if q in ("np", "npadj"):
            return numpy.array(val(n)) if rng.random() < 0.7 else numpy.array(val(2 * n))[::-2]
        return numpy.array([val(n) for _ in range(K)]).T.copy(order=rng.choice("CF"))

    # ------------------------------------------------------------- queries
    def export(self, i):
        op = self.ops[i]
        if self.sc["ops"][i]["real"] in SCIPY:
            return op
        if self.exports[i] is None or not self.sc["keep"]:
            self.exports[i] = op.to_scipy()
        return self.exports[i]

    def query(self, i, q, x):
        """The answer as a list of tensors and arrays."""
        op = self.ops[i]
        if q in ("vec", "mat"):
            return [op @ x]
        if q in ("list", "listm"):
            return op @ x
        if q == "adj":
            return [op.adjoint() @ x]
        if q == "adjlist":
            return op.adjoint() @ x
        if q in ("np", "npmat"):
            return [self.export(i) @ x]
        if q == "npadj":
            return [self.export(i).rmatvec(x)]
        if q == "gl":
            g, loss = op.gradient_and_loss()
            return [*g, loss]
        if q == "state":
            op.state_dict()
            return [torch.zeros(1)]
        t = {"trace": "trace", "det": "det", "logdet": "logdet", "frob": "frobenius_norm"}[q]
        return [torch.as_tensor(getattr(op, t)).clone()]

    def malformed(self, i, q, r):
        x = self.args[i][self.sc["qs"][i].index(q)][0]
        if q in ("np", "npadj"):
            return x[:-1]
        if q in ("vec", "adj"):
            return x[:-1] if r.random() < 0.5 else [x.tolist()]
        if q == "mat":
            return x[:-1] if r.random() < 0.5 else x[None]
        how = r.randrange(3)
        if how == 0:
            return [*x, x[0]]
        if how == 1:
            return [t[None, None] for t in x]
        return [*x[:-1], x[-1].tolist()]

    # --------------------------------------------------------- user's acts
    def update(self, v):
        r = random.Random(f"{self.sc['seed']}/update/{v}")
        with torch.no_grad():
            for p in self.ps:
                p.add_(torch.tensor([float(r.randint(0, 1)) for _ in range(p.numel())], dtype=self.dtype).reshape(p.shape))

    def user(self, e, r, version):
        a = e["a"]
        if a == "spoil":
            for t in self.held[e["r"] - 1]:
                if isinstance(t, numpy.ndarray):
                    if t.flags.writeable:
                        t[...] = 7.5
                else:
                    with torch.no_grad():
                        t.fill_(7.5)
        elif a == "update":
            self.update(version)
        elif a == "change":
            for per in self.args:
                for arr in per:
                    for x in arr:
                        for t in x if isinstance(x, list) else [x]:
                            if t is not None:
                                t += 1.0
        elif a == "grad":
            p = r.choice(self.ps)
            p.grad = None if p.grad is not None and r.random() < 0.5 else torch.full_like(p, 2.0 + r.randint(0, 9))
        elif a == "mode":
            mod = r.choice(list(self.model.modules()))
            mod.training = not mod.training
        elif a == "rng":
            torch.rand(3)
            numpy.random.rand(2)
            random.random()
        elif a == "backward":
            for X, y in self.data.items:
                self.loss(self.model(X), y).backward()
        elif a == "hook":
            r.choice(list(self.model.modules())).register_forward_hook(lambda *a: self.calls.append(4))
        else:
            raise MachineryError(a)

    # -------------------------------------------------------------- digest
    def look(self):
        m = self.model
        mods = list(m.named_modules())
        flat = [t for X, y in self.data.items for t in (X, y)]
        args = [x for per in self.args for arr in per for x in arr]
        arrs = [t for x in args for t in (x if isinstance(x, list) else [x]) if t is not None]
        extra = [getattr(self, n) for n in ("outer_c", "outer_A") if hasattr(self, n)]
        w = {
            "args": [content(t) for t in arrs + extra] + [getattr(self, "rows", 0), getattr(self, "cols", 0)],
            "lists": [[id(p) for p in self.params], [(id(X), id(y)) for X, y in self.data.items],
                      [[id(t) for t in x] for x in args if isinstance(x, list)],
                      [o["blocks"] for o in self.sc["ops"]]],
            "data": [content(t) for t in flat],
            "values": [content(p) for p in self.ps],
            "grads": [None if p.grad is None else (content(p.grad), id(p.grad)) for p in self.ps]
            + [None if t.grad is None else content(t.grad) for t in flat],
            "flags": [p.requires_grad for p in m.parameters()] + [t.requires_grad for t in flat]
            + [t.requires_grad for t in arrs if isinstance(t, torch.Tensor)],
            "buffers": [(n, content(b)) for n, b in m.named_buffers()],
            "modes": [mod.training for _, mod in mods] + [self.loss.training],
            "hooks": [[(k, list(v)) for k, v in sorted(vars(mod).items()) if k.endswith("_hooks") and v]
                      for mod in [mm for _, mm in mods] + [self.loss]]
            + [(list(p._backward_hooks or ()), list(getattr(p, "_post_accumulate_grad_hooks", None) or ()))
               for p in m.parameters()]
            + [list(t._backward_hooks or ()) for t in flat]
            + [len(getattr(torch.nn.modules.module, g)) for g in sorted(dir(torch.nn.modules.module))
               if g.startswith("_global_") and g.endswith("_hooks")],
            "attrs": [(n, id(mod), sorted(vars(mod)), [(k, id(p)) for k, p in mod._parameters.items()],
                       [(k, id(x)) for k, x in mod._modules.items()]) for n, mod in mods]
            + [sorted(vars(self.loss)), self.loss.reduction],
            "rng": [content(torch.get_rng_state()), numpy.random.get_state()[1].tolist(), numpy.random.get_state()[2:],
                    random.getstate()],
            "globals": [torch.is_grad_enabled(), str(torch.get_default_dtype()), torch.get_num_threads(),
                        torch.is_inference_mode_enabled(), torch.is_anomaly_enabled(),
                        torch.are_deterministic_algorithms_enabled(), sorted(numpy.geterr().items())],
        }
        return {k: hashlib.sha1(repr(v).encode()).hexdigest() for k, v in w.items()}

    def results(self):
        return [hashlib.sha1(repr([content(t) for t in r]).encode()).hexdigest() for r in self.held]


def content(t):
    if isinstance(t, numpy.ndarray):
        return (str(t.dtype), t.shape, t.tobytes())
    t = t.detach()
    return (str(t.dtype), tuple(t.shape), t.cpu().contiguous().numpy().tobytes())


def same(a, b):
    if len(a) != len(b):
        return False
    for s, t in zip(a, b):
        s, t = torch.as_tensor(s).detach().double(), torch.as_tensor(t).detach().double()
        if s.shape != t.shape:
            return False
        if s.numel() == 0:
            continue
        if not torch.allclose(s, t, rtol=1e-8, atol=1e-8 * max(1.0, float(t.abs().max())), equal_nan=True):
            return False
    return True


def numbers(w, ids):
    """Digests as small integers."""
    if isinstance(w, dict):
        return {k: ids.setdefault((k, v), len(ids)) for k, v in w.items()}
    return [ids.setdefault(v, len(ids)) for v in w]


def quiet(fn):
    """Run the oracle without disturbing the caller's world."""
    saved = torch.get_rng_state(), numpy.random.get_state(), random.getstate(), torch.is_grad_enabled()
    torch.set_grad_enabled(True)
    try:
        return fn()
    finally:
        torch.set_rng_state(saved[0])
        numpy.random.set_state(saved[1])
        random.setstate(saved[2])
        torch.set_grad_enabled(saved[3])


def record(item):
    sc = item["sc"]
    torch.set_grad_enabled(True)
    w = World(sc)
    r = random.Random(f"{sc['seed']}/{item['hist']}")
    seed = r.randrange(2**31)
    torch.manual_seed(seed)
    numpy.random.seed(seed)
    random.seed(seed)
    ids, version, twins = {}, 1, {}
    w0 = numbers(w.look(), ids)
    events = []

    def truth(e, v):
        """Answer of an operator nobody has used, at version v of the parameters."""
        q = sc["qs"][e["o"] - 1][e["q"] - 1]
        x = copy.deepcopy(w.args[e["o"] - 1][e["q"] - 1][e["arg"] - 1])
        key = (e["o"], q, v, repr(x))
        if key not in twins:
            twins[key] = quiet(lambda: [torch.as_tensor(t).detach().clone() for t in World(sc, v).query(e["o"] - 1, q, x)])
        return twins[key]

    for e in item["hist"]:
        raised, new, match = "", False, []
        if e["a"] in ("use", "fault", "bad"):
            i, q = e["o"] - 1, sc["qs"][e["o"] - 1][e["q"] - 1]
            x = w.args[i][e["q"] - 1][e["arg"] - 1]
            if e["a"] == "bad":
                x = w.malformed(i, q, r)
            exc = HardBoom if r.random() < 0.3 else Boom
            fault = contextlib.nullcontext()
            if e["a"] == "fault":
                if e["f"] == "data":
                    w.data.fail_at, w.data.exc = e["at"], exc
                elif e["f"] == "op":
                    fault = op_fault(r, e["at"], exc)
                elif e["f"] == "loss":
                    w.loss_arm = [e["at"], exc]
                else:
                    w.model.final.arm = [e["f"], e["at"], exc]
            got = None
            try:
                with fault:
                    got = w.query(i, q, x)
            except (Boom, HardBoom):
                raised = "boom"
            except Exception as err:
                raised = "other"
                why = f"{type(err).__name__}: {err}"
            w.data.fail_at = w.loss_arm = w.model.final.arm = None
            if got is not None:
                new = True
                w.held.append(list(got))
                if e["a"] != "bad":
                    match = [v for v in range(1, version + 1) if same(got, truth(e, v))]
        elif e["a"] == "spoil" and e["r"] > len(w.held):
            continue  # the call that was to give this result failed
        else:
            w.user(e, r, version)
            version += e["a"] == "update"
        o = {"raised": raised, "new": new, "match": match, "w": numbers(w.look(), ids),
             "res": numbers(w.results(), ids)}
        if raised == "other" and e["a"] != "bad":
            o["why"] = why
        events.append({"e": e, "o": o})
    return {"n": len(events), "fails": [], "events": events, "w0": w0}


def scenario(rng, cid, only=None, base=None, one=False):
    """A random world with some operators (``only``: one operator of that kind)."""
    while True:
        net = nets.make_case(rng, rng.choice(ARCHS), rng.choice(["mse", "ce", "bce"]), rng.choice(["mean", "sum"]),
                             rng.choice([1, 2, 3]), cid)
        if sum(map(len, net["params"])) <= 30 and all(ly["k"] not in ("gain", "shift") for ly in net["layers"]):
            break
    N, P = len(net["x"]), len(net["params"])
    cut = rng.randint(1, N)
    split = [list(range(1, cut + 1))] + ([list(range(cut + 1, N + 1))] if cut < N else [])
    kinds = [*LAZY, *LAZY, "kfac", "kfac", "kfac", "inv", "inv", "inv", *SCIPY]
    if only == "act":
        split = [list(range(1, N + 1))]
    if len(split) > 1 or len(net["layers"]) < 2:
        kinds = [k for k in kinds if k != "act"]
    nbase = rng.choice([1, 2])
    real = [rng.choice(kinds) for _ in range(rng.choice([2, 3, 4]))]
    if only is not None:
        if only == "act" and len(net["layers"]) < 2:
            return scenario(rng, cid, only, base, one)
        real = [only]
    sel = list(range(1, P + 1))
    if rng.random() < 0.4:
        sel = rng.sample(sel, rng.randint(1, P))
    if one:  # a single parameter: argument lists with one entry
        sel = [rng.choice(sel)]
    bases = [{"fisher": rng.choice(["type2", "mc", "empirical", "forward"]), "approx": rng.choice(["expand", "reduce"]),
              "sep": rng.random() < 0.5, "mc": 1} for _ in range(nbase)]
    if base is not None:
        bases = [dict(b, **base) for b in bases]
    ops, qs = [], []
    for k in real:
        o = {"real": k, "kind": k if k in ("kfac", "inv") else "lazy", "base": rng.randint(1, nbase), "seed": rng.randrange(1000),
             "mc": rng.choice([1, 2]), "blocks": [], "cache": rng.random() < 0.7,
             "damp": rng.choice([{"damping": 0.5}, {"damping": (0.25, 0.5)}, {"damping": 0.5, "use_exact_damping": True},
                                 {"damping": 0.25, "use_heuristic_damping": True}])}
        if k == "hess" and len(sel) > 1 and rng.random() < 0.4:
            b = rng.randint(1, len(sel) - 1)
            o["blocks"] = [b, len(sel) - b]
        ops.append(o)
        p = pool(k)
        qs.append(rng.sample(p, min(6, len(p))) if only is None else p)
    case = {"id": cid, "ops": [{"kind": o["kind"], "base": o["base"]} for o in ops], "qs": qs, "nb": len(split), "nargs": 2,
            "reads": [o["real"] != "outer" for o in ops], "nbase": nbase, "depth": 9 if only is None else 3, "user": USER, "short": only is not None}
    return {"task": "frame", "case": case, "net": net, "split": split, "ops": ops, "qs": qs, "sel": sel, "bases": bases,
            "nargs": 2, "seed": f"w{rng.randrange(10**9)}", "keep": rng.random() < 0.5,
            "freeze": "act" not in real}


def validate(ctx, items, results):
    traces, src = [], {}
    for it, r in zip(items, results):
        if r is None or "events" not in r:
            continue
        tid = len(traces) + 1
        traces.append({"id": tid, "case": it["sc"]["case"], "w0": r["w0"],
                       "events": [{"e": ev["e"], "o": {k: v for k, v in ev["o"].items() if k != "why"}} for ev in r["events"]]})
        src[tid] = (it, r)
    got = ctx.tlc("FrameTrace", traces)
    for tid, (it, r) in src.items():
        recs = got.get(tid, [])
        if any(x["kind"] == "accepted" for x in recs):
            continue
        if not recs:
            raise MachineryError(f"FrameTrace gave no verdict for {it['hist']}")
        at = max(x["at"] for x in recs)
        bad = next(x for x in recs if x["at"] == at)
        ev = r["events"][at - 1]
        e = dict(ev["e"])
        if "o" in e:
            e["o"] = it["sc"]["ops"][e["o"] - 1]
            e["q"] = it["sc"]["qs"][ev["e"]["o"] - 1][e["q"] - 1]
        obs = {k: ev["o"][k] for k in ("raised", "new", "match", "why") if k in ev["o"]}
        ctx.fail(it, f"after {[x['e'] for x in r['events'][:at - 1]]}: {e} was observed as {obs}, changed {bad['changed']}, "
                     f"earlier results changed {bad['spoiled']}; allowed {bad['allowed']} ({it['sc']['net']['arch']}, "
                     f"{it['sc']['net']['loss']}, params {it['sc']['sel']}, batches {it['sc']['split']})")
    return len(traces)


def run(ctx):
    rng = ctx.rng()
    scs = [scenario(rng, i + 1) for i in range(160 if ctx.thorough else 40)]
    # short histories: every operator and query, result or argument overwritten after it
    for kind in [*LAZY, *SCIPY]:
        for _ in range(4 if ctx.thorough else 1):
            scs.append(scenario(rng, len(scs) + 1, kind))
    for kind in ("kfac", "inv"):
        for fisher in ("type2", "mc", "empirical", "forward"):
            for sep in (True, False):
                for _ in range(4 if ctx.thorough else 1):
                    scs.append(scenario(rng, len(scs) + 1, kind, {"fisher": fisher, "sep": sep}))
    for kind in [*LAZY, "kfac", "inv", "inv"]:
        scs.append(scenario(rng, len(scs) + 1, kind, one=True))
    # every history of length 2 (3) of small cases
    small = []
    for s in scs[: 16 if ctx.thorough else 8]:
        c = dict(s["case"], depth=3 if ctx.thorough else 2, nargs=1, nb=1, short=False)
        c["ops"], c["qs"], c["reads"] = c["ops"][:2], [q[:2] for q in c["qs"][:2]], c["reads"][:2]
        small.append(c)
    ctx.tlc("Frame", small)
    hists = ctx.simulate("Frame", [s["case"] for s in scs if not s["case"]["short"]], 40 if ctx.thorough else 12, 9)
    every = ctx.tlc("Frame", [s["case"] for s in scs if s["case"]["short"]])
    items = [{"task": "frame", "sc": s, "hist": h["hist"]} for s in scs
             for h in (every if s["case"]["short"] else hists)[s["case"]["id"]]]
    if ctx.only is not None:
        items = [ctx.only]
    ctx.sample({"ops": [o["real"] for o in scs[0]["ops"]], "history": items[0]["hist"]})
    results = ctx.pmap(record, items)
    n = validate(ctx, items, results)
    ctx.traces += n
    ctx.notes["histories"] = n
