"""Histories of KFAC operators, inverses and state dictionaries (KfacLife.tla):
generation by TLC, execution on real operators, validation by TLC."""

import contextlib
import io
import math
import random

import kfacs
import nets
import risk
import torch
from c16 import build_inverse
from cmp import TOL, rand_int, split_list
from core import MachineryError, Mismatch, decode, fl, frac
from torch.utils._python_dispatch import TorchDispatchMode


ARCHS = [a for a in kfacs.KARCHS if a not in ("bigconv", "padconv")]


CHANGES = ("load", "new", "loadinv", "newinv", "set", "fault")


class Boom(Exception):
    """Injected failure."""


class HardBoom(BaseException):
    """Injected failure of the KeyboardInterrupt kind."""


class Data:
    """Counts batches read; can fail when a batch is requested."""

    def __init__(self, items):
        self.items = items
        self.read = 0
        self.fail_at = None
        self.exc = Boom

    def __iter__(self):
        for i, it in enumerate(self.items, start=1):
            if self.fail_at == i:
                raise self.exc("data")
            self.read += 1
            yield it
        if self.fail_at == len(self.items) + 1:
            raise self.exc("data")


class Trip(torch.nn.Module):
    """Wraps a module; fails in the n-th forward or backward pass once armed."""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner
        self.arm = None  # [forward or backward, countdown, exception]

    def forward(self, x):
        y = self.inner(x)
        if self.arm is not None and torch.is_grad_enabled():
            kind, _, exc = self.arm
            self.arm[1] -= 1
            if self.arm[1] == 0:
                if kind == "forward":
                    raise exc("model")

                def hook(g):
                    raise exc("backward")

                if y.requires_grad:
                    y.register_hook(hook)
        return y


class OpFault(TorchDispatchMode):
    """The n-th tensor operation fails."""

    def __init__(self, n, exc):
        super().__init__()
        self.left, self.exc = n, exc

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.left -= 1
        if self.left == 0:
            raise self.exc("op")
        return func(*args, **(kwargs or {}))


def op_fault(rng, at, exc):
    """A failure the deeper the larger ``at`` (1..4)."""
    return OpFault(rng.randint(1, 12 * 5 ** (at - 1)), exc)


class World:
    def __init__(self, sc, rng, dtype, table, itable):
        self.sc, self.rng, self.dtype = sc, rng, dtype
        self.case = sc["nets"][0]
        self.table, self.itable = table, itable
        self.nb = sc["case"]["nb"]
        self.serial = "set" in sc["case"]["acts"]
        self.models, self.data, self.losses = [], [], []
        for pv in sc["case"]["modpv"]:
            m = nets.build_model(sc["nets"][pv - 1], dtype, nested=sc["nested"])
            m.final = Trip(m.final)
            for n, ly in enumerate(self.case["layers"]):
                if ly["k"] in ("relu", "sq", "cube", "flat", "cum"):
                    m.replace(n, Trip(m.layer(n)))
                    break
            self.models.append(m)
        self.ops = [self.build(o) for o in range(sc["case"]["nops"])]
        self.invs = []
        for i in range(len(sc["case"]["invop"])):
            o = sc["case"]["invop"][i] - 1
            self.invs.append(build_inverse(self.ops[o], sc["modes"][sc["case"]["invmode"][i] - 1], rng,
                                           cache=sc["case"]["invon"][i]))
        self.kslots, self.islots = [None, None], [None, None]

    # ------------------------------------------------------------ building
    def listed(self, m, g):
        ps = m.case_params()
        return [ps[k - 1] for k in g["sel"]]

    def source(self):
        split = self.sc["split"]
        return Data(nets.batches(self.case, split, self.dtype))

    def build(self, o, case=None, g=None, model=None):
        c = case or self.case
        g = g or self.sc["cfgs"][self.sc["case"]["opcfg"][o] - 1]
        model = model or self.models[self.sc["case"]["opmodel"][o] - 1]
        data = Data(nets.batches(c, self.sc["split"], self.dtype))
        from curvlinops import KFACLinearOperator

        kw = {"num_data": g["nd"]} if g["nd"] else {}
        kw["num_per_example_loss_terms"] = g.get("terms") or c["R"]
        kw["seed"] = g.get("seed", 2147483647)
        op = KFACLinearOperator(
            model, nets.build_loss(c), self.listed(model, g), data,
            fisher_type=kfacs.fisher_type(g["fisher"]), kfac_approx=kfacs.kfac_type(g["approx"]),
            separate_weight_and_bias=g["sep"], check_deterministic=False,
            mc_samples=g.get("M", 1) if g["fisher"] == "mc" else 1, **kw)
        if case is None:
            while len(self.data) <= o:
                self.data.append(None)
            self.data[o] = data
        data.read = 0
        return op

    def shapes(self):
        return [self.case["pshapes"][k - 1] for k in self.sc["cfgs"][0]["sel"]]

    # ------------------------------------------------------------- results
    def product(self, A, kind, fault=contextlib.nullcontext()):
        D = A.shape[1]
        if kind == "vec":
            v = rand_int(self.rng, (D,), self.dtype)
            return (A @ v).reshape(D, 1), v.reshape(D, 1)
        X = torch.eye(D, dtype=self.dtype) if self.rng.random() < 0.5 else rand_int(self.rng, (D, 2), self.dtype)
        if kind == "list":
            Y = A @ split_list(X, [tuple(s) for s in self.shapes()])
            return torch.cat([y.reshape(-1, X.shape[1]) for y in Y]), X
        if kind == "adjoint":
            return A.adjoint() @ X, X
        if kind == "scipy":
            return torch.from_numpy(A.to_scipy() @ X.numpy()), X
        with fault:
            return A @ X, X

    def match(self, got, X, table, tol):
        out = []
        base = max(float(M.abs().max()) for M in table.values()) * float(X.abs().max())
        for sym, M in table.items():
            E = M @ X.double()
            # vanishing values are zero up to the rounding errors of others
            s = max(float(E.abs().max()), float(M.abs().max()), 1e-3 * base) * 3 + 1e-12
            if tuple(got.shape) == tuple(E.shape) and bool(((got.double() - E).abs() <= tol * s).all()):
                out.append(list(sym))
        return out

    def use(self, op, kind, fault=contextlib.nullcontext()):
        tol = TOL[self.dtype]
        if kind not in ("trace", "det", "logdet", "frob"):
            got, X = self.product(op, kind, fault)
            return self.match(got, X, self.table, tol)
        with fault:
            got = getattr(op, "frobenius_norm" if kind == "frob" else kind)
        got = float(got)
        out = []
        base = max(float(M.abs().max()) for M in self.table.values())
        for sym, M in self.table.items():
            if kind == "trace":
                want, s = float(M.trace()), float(M.diagonal().abs().sum())
            elif kind == "frob":
                want = s = float(M.norm())
            else:
                ev = torch.linalg.eigvalsh(M)
                if ev.min() <= 1e-4 * ev.max() or self.dtype != torch.float64:
                    out.append(list(sym))  # ill-conditioned: not compared
                    continue
                want = float(ev.prod()) if kind == "det" else float(ev.log().sum())
                s = 100 * (abs(want) if kind == "det" else max(1.0, abs(want)))
            if abs(got - want) <= tol * 3 * max(s, (kind in ('trace', 'frob')) * 1e-3 * base) + 1e-15:
                out.append(list(sym))
        return out

    def versions(self, m):
        """Parameter versions the model's parameters equal (all of them)."""
        out = []
        for pv in (1, 2):
            ref = self.sc["nets"][pv - 1]["params"]
            if all(p.detach().flatten().double().tolist() == [float(v) for v in r]
                   for p, r in zip(m.case_params(), ref)):
                out.append([pv])
        return out

    def use_inv(self, i, kind, fault=contextlib.nullcontext()):
        got, X = self.product(self.invs[i], kind, fault)
        return self.match(got, X, self.itable, 1e-8 if self.dtype == torch.float64 else 3e-3)

    # -------------------------------------------------------------- events
    def arm(self, e):
        o = e["o"] - 1
        exc = HardBoom if self.rng.random() < 0.25 else Boom
        m = self.models[self.sc["case"]["opmodel"][o] - 1]
        trips = [t for t in m.modules() if isinstance(t, Trip)]
        self.undo = []
        if e["f"] == "data":
            d = self.data[o]
            d.fail_at, d.exc = e["at"], exc
            self.undo.append(lambda: setattr(d, "fail_at", None))
        elif e["f"] in ("model", "mid", "backward"):
            t = trips[0] if e["f"] == "mid" else trips[-1]
            if e["f"] == "backward" and self.rng.random() < 0.5:
                t = trips[0]
            t.arm = ["backward" if e["f"] == "backward" else "forward", e["at"], exc]
            self.undo.append(lambda: setattr(t, "arm", None))
        else:
            loss = self.ops[o]._loss_func if hasattr(self.ops[o], "_loss_func") else None
            if loss is not None:
                orig = loss.forward
                left = [e["at"]]

                def failing(a, b):
                    left[0] -= 1
                    if left[0] == 0:
                        raise exc("loss")
                    return orig(a, b)

                loss.forward = failing
                self.undo.append(lambda: loss.__dict__.pop("forward", None))

    def step(self, e):
        """Execute one event; returns its observation."""
        before = [d.read for d in self.data]
        a = e["a"]
        raised, match = "", []
        self.undo = []
        who = None
        try:
            if a == "use":
                who = e["o"] - 1
                match = self.use(self.ops[who], e["k"])
            elif a == "fault":
                who = e["o"] - 1
                if e["f"] != "op":
                    self.arm(e)
                inv = [i for i, o in enumerate(self.sc["case"]["invop"]) if o == e["o"]]
                exc = HardBoom if self.rng.random() < 0.25 else Boom
                fault = op_fault(self.rng, e["at"], exc) if e["f"] == "op" else contextlib.nullcontext()
                if e["k"] == "inv" and inv:
                    match = self.use_inv(inv[0], "mat", fault)
                else:
                    match = self.use(self.ops[who], "mat" if e["k"] == "inv" else e["k"], fault)
            elif a == "inv":
                who = self.sc["case"]["invop"][e["i"] - 1] - 1
                match = self.use_inv(e["i"] - 1, e["k"])
            elif a == "run":
                self.run_model(e["m"] - 1)
            elif a == "set":
                self.set_params(e["m"] - 1)
            elif a == "save":
                sd = self.ops[e["o"] - 1].state_dict()
                self.kslots[e["s"] - 1] = self.freeze(sd)
            elif a == "load":
                self.ops[e["o"] - 1].load_state_dict(self.kslots[e["s"] - 1])
                match = self.versions(self.model_of(e["o"] - 1))
            elif a == "new":
                self.renew(e["o"] - 1, self.kslots[e["s"] - 1], e["chk"])
                match = self.versions(self.model_of(e["o"] - 1))
            elif a == "bad":
                self.bad(e)
            elif a == "saveinv":
                sd = self.invs[e["i"] - 1].state_dict()
                sd = dict(sd, A=self.freeze(sd["A"], inner=True))
                if self.serial or self.rng.random() < 0.4:
                    sd = roundtrip(sd)
                self.islots[e["s"] - 1] = sd
            elif a == "loadinv":
                self.invs[e["i"] - 1].load_state_dict(self.islots[e["s"] - 1])
                match = self.versions(self.model_of(self.sc["case"]["invop"][e["i"] - 1] - 1))
            elif a == "newinv":
                from curvlinops import KFACInverseLinearOperator

                o = self.sc["case"]["invop"][e["i"] - 1] - 1
                self.invs[e["i"] - 1] = KFACInverseLinearOperator.from_state_dict(
                    self.islots[e["s"] - 1], self.ops[o])
                match = self.versions(self.model_of(o))
        except (Boom, HardBoom):
            raised = "Boom"
        except ValueError as x:
            if a != "bad":
                raise
            raised = "ValueError"
            self.last = str(x)
        finally:
            for u in self.undo:
                u()
        for m in self.models:
            if any(x._forward_hooks or x._forward_pre_hooks or x._backward_hooks for x in m.modules()):
                raise Mismatch(f"hooks left on the model after {e}")
        read = sum(d.read for d in self.data) - sum(before)
        if who is not None and self.data[who].read - before[who] != read:
            raise Mismatch(f"{e} read data of another operator")
        return {"raised": raised, "match": match, "read": read}

    def model_of(self, o):
        return self.models[self.sc["case"]["opmodel"][o] - 1]

    def freeze(self, sd, inner=False):
        """State dictionary as it is (factors shared), or saved to a file and read back."""
        if not inner and (self.serial or self.rng.random() < 0.4):
            return roundtrip(sd)
        sd = dict(sd)
        sd["model_func_state_dict"] = {k: v.clone() for k, v in sd["model_func_state_dict"].items()}
        return sd

    def run_model(self, m):
        model = self.models[m]
        torch.rand(3)
        X, y = nets.batches(self.case, [self.rng.choice(self.sc["split"])], self.dtype)[0]
        model.train(self.rng.random() < 0.5)
        if self.rng.random() < 0.3:
            with torch.no_grad():
                model(X)
            return
        out = model(X)
        nets.build_loss(self.case)(out, y).backward()
        model.zero_grad(set_to_none=True)

    def set_params(self, m):
        model = self.models[m]
        (v,) = self.versions(model) or [[0]]
        if not v[0]:
            raise MachineryError("model parameters are neither version")
        with torch.no_grad():
            for p, vals in zip(model.case_params(), self.sc["nets"][2 - v[0]]["params"]):
                p.copy_(torch.tensor(vals, dtype=self.dtype).reshape(p.shape))

    def renew(self, o, sd, chk):
        from curvlinops import KFACLinearOperator

        m = self.model_of(o)
        self.data[o] = self.source()
        self.ops[o] = KFACLinearOperator.from_state_dict(
            sd, m, self.listed(m, self.sc["cfgs"][0]), self.data[o], check_deterministic=chk)
        self.data[o].read = 0

    def bad(self, e):
        """Load a dictionary of another loss, reduction or set of layers."""
        c = dict(self.case)
        g = dict(self.sc["cfgs"][0])
        if e["k"] == "loss":
            src = self.sc["others"]["loss"]
        elif e["k"] == "reduction":
            src = dict(c, red="sum" if c["red"] == "mean" else "mean")
        else:
            src = c
            g = dict(g, sel=self.sc["others"]["sel"])
        model = nets.build_model(self.sc["nets"][self.rng.choice([0, 1])], self.dtype, nested=self.sc["nested"])
        # the same module names as the target
        other = self.build(0, case=src, g=g, model=self.wrap_like(model))
        if e["cmp"] or (e["k"] == "layers" and other.shape[1] == self.itotal()):
            other @ torch.ones(other.shape[1], dtype=self.dtype)
        before = self.versions(self.model_of(e["o"] - 1))
        try:
            self.ops[e["o"] - 1].load_state_dict(other.state_dict())
        except ValueError:
            if self.versions(self.model_of(e["o"] - 1)) != before:
                raise Mismatch(f"rejected dictionary ({e}) changed the model's parameters") from None
            if tuple(self.ops[e["o"] - 1].shape) != (self.itotal(), self.itotal()):
                raise Mismatch(f"rejected dictionary ({e}) changed the operator's shape") from None
            raise

    def itotal(self):
        return sum(math.prod(s) for s in self.shapes())

    def wrap_like(self, m):
        m.final = Trip(m.final)
        for n, ly in enumerate(self.case["layers"]):
            if ly["k"] in ("relu", "sq", "cube", "flat", "cum"):
                m.replace(n, Trip(m.layer(n)))
                break
        return m


def roundtrip(sd):
    buf = io.BytesIO()
    torch.save(sd, buf)
    buf.seek(0)
    return torch.load(buf, weights_only=False)


# --------------------------------------------------------------- generation
def scenario(rng, sid, arch, acts, loss=None, nops=1, nmod=1, ninv=0, mc=False, depth=8, differ=None):
    """Random scenario; two parameter versions of one network, two settings."""
    loss = loss or rng.choice(["mse", "ce", "bce"])
    for _ in range(2000):
        N = rng.choice([2, 3])
        a = kfacs.make_case(rng, arch, loss, "mean" if differ in ("terms", "nd") else rng.choice(["mean", "sum"]), N, 2 * sid - 1)
        kp = kfacs.kfac_params(a)
        if sum(len(a["params"][k - 1]) for k in kp) > (20 if ninv else 40):
            continue
        b = dict(a, id=2 * sid)
        b["params"] = [[nets.ri(rng, -1, 1) for _ in p] for p in a["params"]]
        if b["params"] == a["params"]:
            continue
        z = nets.forward_ints(b)
        if z.abs().max() > (7 if loss != "mse" else 100) or z.abs().max() == 0:
            continue
        layers = {}
        for ly in a["layers"]:
            if ly["k"] in ("lin", "conv"):
                w = ly["w"] if ly["k"] == "lin" else ly["wt"]
                layers[w] = [w] + ([ly["b"]] if ly["b"] else [])
        if "bad" in acts and len(layers) < 2:
            continue
        sel = list(kp) if rng.random() < 0.55 else rng.sample(kp, rng.randint(1, len(kp)))
        if rng.random() < 0.15:  # biases only
            sel = [ly["b"] for ly in a["layers"] if ly["k"] in ("lin", "conv") and ly["b"]] or sel
        rng.shuffle(sel)
        # another set of layers
        used = [w for w, ps in layers.items() if set(ps) & set(sel)]
        free = [w for w in layers if w not in used]
        if "bad" not in acts:
            other_sel = []
        elif len(used) == 1 and not free:
            continue
        else:
            other_sel = layers[rng.choice(free)] if free else [p for w in used[:-1] for p in layers[w]]
        break
    else:
        raise RuntimeError(f"no scenario {arch} {loss}")
    cfgs = []
    alike = differ in ("seed", "M", "terms")
    for k in range(2):
        for _ in range(50):
            fisher = "mc" if mc and (k == 0 or alike) else rng.choice(["empirical", "empirical", "type2"])
            approx = rng.choice(["expand", "reduce"])
            if fisher == "type2" and loss != "mse" and not (
                    a["R"] == 1 or (kfacs.positionwise(a) and approx == "expand")):
                continue
            g = {"sel": sel, "fisher": fisher, "approx": approx, "sep": rng.random() < 0.5,
                 "nd": rng.choice([0, 0, N + 2]), "seed": rng.choice([0, 0, rng.randint(0, 10**6)]), "M": rng.choice([1, 2])}
            if k == 1 and differ:  # a single different setting
                other = g
                g = dict(cfgs[0])
                if differ in ("fisher", "approx"):
                    g[differ] = other[differ]
                    if g == cfgs[0] or (g["fisher"] == "type2" and loss != "mse" and a["R"] > 1 and not (
                            kfacs.positionwise(a) and g["approx"] == "expand")):
                        continue
                else:
                    g[differ] = {"seed": g["seed"] + 1, "M": 3 - g["M"], "terms": a["R"] + rng.choice([1, 2]),
                                 "sep": not g["sep"], "nd": 0 if g["nd"] else N + 2}[differ]
            elif k == 1 and g["fisher"] == cfgs[0]["fisher"] and g["nd"] == cfgs[0]["nd"]:
                continue
            cfgs.append(g)
            break
    if len(cfgs) < 2:
        return scenario(rng, sid, arch, acts, loss, nops, nmod, ninv, mc, depth, differ)
    for c in (a, b):
        c["cfgs"] = [dict(g, fisher="empirical" if g["fisher"] == "mc" else g["fisher"]) for g in cfgs]
        c["dets"] = False
        c["contig"] = True
    split = risk.rand_split(rng, N)
    other_loss = dict(a)
    if loss == "mse":
        other_loss = dict(a, loss="bce", y=[[abs(v) % 2 for v in r] for r in a["y"]])
    else:
        other_loss = dict(a, loss="mse")
        if loss == "ce":
            other_loss["yshape"] = a["zshape"]
            other_loss["y"] = [[0] * math.prod(a["zshape"]) for _ in a["y"]]
            other_loss["R"] = math.prod(a["zshape"][:-1])
    sc = {
        "task": "life", "id": sid, "nets": [a, b], "cfgs": cfgs, "split": split, "nested": nets.nested(rng),
        "others": {"loss": other_loss, "sel": other_sel}, "mc": mc,
        "modes": two_modes(rng),
        "case": {
            "id": sid, "nops": nops, "opmodel": [rng.randint(1, nmod) for _ in range(nops)],
            "opcfg": [rng.randint(1, 2) for _ in range(nops)], "nmod": nmod,
            "modpv": [1 + i % 2 for i in range(nmod)], "invop": [1 + i % nops for i in range(ninv)],
            "invmode": [rng.randint(1, 2) for _ in range(ninv)],
            "invon": [rng.random() < 0.6 for _ in range(ninv)],
            "acts": acts, "depth": depth, "brief": False, "nb": len(split),
        },
    }
    return sc


def two_modes(rng):
    """Two damping modes, often with a single different setting."""
    a = mode(rng)
    b = mode(rng)
    if a["kind"] == "heur" and rng.random() < 0.7:
        b = dict(a)
        k = rng.choice(["sq", "min"])
        b[k] = rng.choice([v for v in ([[1, 2], [1, 1], [2, 1]] if k == "sq" else MINS) if v != a[k]])
    elif a["kind"] == "pair" and rng.random() < 0.3:
        b = {"kind": "exact", "d": a["dA"]} if a["single"] else dict(a, dA=a["dB"], dB=a["dA"])
    return [a, b]


MINS = [[1, 10**8], [1, 2], [3, 1]]


def mode(rng):
    if rng.random() < 0.4:
        return {"kind": "heur", "sq": rng.choice([[1, 2], [1, 1], [2, 1]]), "min": rng.choice(MINS)}
    pos = [[1, 2], [1, 1], [2, 1], [1, 4], [3, 1]]
    if rng.random() < 0.5:
        return {"kind": "exact", "d": rng.choice(pos)}
    d = rng.choice(pos)
    if rng.random() < 0.5:
        return {"kind": "pair", "dA": d, "dB": d, "single": True}
    return {"kind": "pair", "dA": d, "dB": rng.choice(pos), "single": False}


def exact(ctx, scs, inverses):
    """Exact matrices of all value symbols, by TLC."""
    recs = ctx.tlc("Kfac", [n for s in scs for n in s["nets"]], weight=kfacs.weight)
    inv_cases, back = [], {}
    for s in scs:
        s["values"] = {}
        for pv in (1, 2):
            ex = kfacs.KExpect(s["nets"][pv - 1], recs[s["nets"][pv - 1]["id"]])
            for cf in (1, 2):
                v = ex.vals[cf - 1]
                s["values"][f"{cf},{pv}"] = (torch.tensor(decode(v["M"]), dtype=torch.float64) * ex.scale(cf - 1)).tolist()
                if inverses:
                    cid = len(inv_cases) + 1
                    ms = [m for m in s["modes"] if m["kind"] != "heur"]  # others: see replay
                    if not ms:
                        inv_cases.append(None)
                        continue
                    inv_cases.append({"id": cid, "blocks": v["blocks"], "sizes": v["sizes"], "modes": ms})
                    back[cid] = (s, cf, pv)
    if inverses:
        got = ctx.tlc("KfacInv", [q for q in inv_cases if q], weight=lambda q: sum(q["sizes"]) ** 3)
        for cid, rs in got.items():
            s, cf, pv = back[cid]
            nr = [i for i, m in enumerate(s["modes"], start=1) if m["kind"] != "heur"]
            for r in rs:
                s.setdefault("ivalues", {})[f"{nr[r['mode'] - 1]},{cf},{pv}"] = decode(r["inverse"])


def sampled(g):
    """The value is that of an undisturbed operator, not the specification's."""
    return g["fisher"] == "mc" or bool(g.get("terms"))


def distinct(sc):
    """All value symbols stand for clearly different matrices."""
    Ms = [torch.tensor(v, dtype=torch.float64) for k, v in sc["values"].items()
          if not sampled(sc["cfgs"][int(k.split(",")[0]) - 1])]
    if not Ms:
        return True
    s = max(float(M.abs().max()) for M in Ms)
    return all(float((A - B).abs().max()) > 1e-2 * s for i, A in enumerate(Ms) for B in Ms[:i])


def replay(item):
    rng = random.Random(item["seed"])
    sc = item["sc"]
    dtype = torch.float64 if rng.random() < 0.85 else torch.float32
    if sc["case"]["invop"] and max(float(torch.tensor(v).abs().max()) for v in sc["values"].values()) > 50:
        dtype = torch.float64  # badly conditioned with the dampings in use
    tab = lambda d: {tuple(int(x) for x in k.split(",")): torch.tensor(v, dtype=torch.float64)  # noqa: E731
                     for k, v in d.items()}
    w = World(sc, rng, dtype, tab(sc["values"]), tab(sc.get("ivalues", {})))
    for cf, g in enumerate(sc["cfgs"], start=1):
        if g["fisher"] == "mc" or g.get("terms"):  # reference: undisturbed operators
            for pv in (1, 2):
                m = nets.build_model(sc["nets"][pv - 1], dtype, nested=sc["nested"])
                op = w.build(0, case=sc["nets"][pv - 1], g=g, model=m)
                w.table[(cf, pv)] = (op @ torch.eye(op.shape[1], dtype=dtype)).double()
        for mi, m in enumerate(sc["modes"] if sc["case"]["invop"] else [], start=1):
            for pv in (1, 2):
                if m["kind"] == "heur" or g["fisher"] == "mc" or g.get("terms"):
                    mod = nets.build_model(sc["nets"][pv - 1], dtype, nested=sc["nested"])
                    inv = build_inverse(w.build(0, case=sc["nets"][pv - 1], g=g, model=mod), m, rng, cache=False)
                    w.itable[(mi, cf, pv)] = (inv @ torch.eye(inv.shape[1], dtype=dtype)).double()
    events = []
    for e in item["hist"]:
        try:
            o = w.step(e)
        except Mismatch as x:
            raise Mismatch(f"{x}; history {item['hist'][: len(events) + 1]}") from None
        except Exception as x:
            raise type(x)(f"{x}\nin history {item['hist'][: len(events) + 1]}").with_traceback(
                x.__traceback__) if type(x).__init__ in (Exception.__init__, RuntimeError.__init__) else x
        events.append({"e": e, "o": o})
    return {"n": len(events), "traces": 1, "fails": [], "events": events}


def histories(ctx, scs, num, depth):
    """Random behaviours of KfacLife, generated by TLC's simulator."""
    got = ctx.simulate("KfacLife", [s["case"] for s in scs], num, depth)
    return {k: [r["hist"] for r in v] for k, v in got.items()}


def validate(ctx, items, results):
    """Let TLC decide whether the recorded histories are behaviours of KfacLife."""
    traces, src = [], {}
    pool = [ctx.only] if ctx.only is not None else items
    for it, r in zip(pool, results):
        if r is None or "events" not in r:
            continue
        tid = len(traces) + 1
        traces.append({"id": tid, "case": it["sc"]["case"], "events": r["events"]})
        src[tid] = (it, r)
    got = ctx.tlc("KfacLifeTrace", traces)
    for tid, (it, r) in src.items():
        recs = got.get(tid, [])
        if any(x["kind"] == "accepted" for x in recs):
            continue
        at = max(x["at"] for x in recs)
        bad = next(x for x in recs if x["at"] == at)
        ev = r["events"][at - 1]
        hist = [x["e"] for x in r["events"][:at]]
        ctx.fail(it, f"history {hist}: event {ev['e']} was observed as {ev['o']}, allowed {bad['allowed']} "
                     f"(cfgs {it['sc']['cfgs']}, {it['sc']['nets'][0]['arch']}, {it['sc']['nets'][0]['loss']})")
    return len(traces)


def run(ctx, scs, num, inverses=False):
    depth = max(s["case"]["depth"] for s in scs)
    exact(ctx, scs, inverses)
    scs = [s for s in scs if distinct(s)]
    # exhaustive exploration of short histories
    small = []
    for s in scs[: 16 if ctx.thorough else 8]:
        small.append(dict(s["case"], depth=3 if ctx.thorough else 2))
    ctx.tlc("KfacLife", small)
    hists = histories(ctx, scs, num, depth)
    # short histories that end with a request after a change
    rng = ctx.rng("brief")
    short = {}
    for d in (3, 4, 5):
        cs = [dict(s["case"], depth=d, brief=True) for s in scs]
        for k, r in ctx.simulate("KfacLife", cs, num * 2, d).items():
            for h in (x["hist"] for x in r):
                if h[-1]["a"] in ("use", "inv") and any(e["a"] in CHANGES for e in h):
                    short.setdefault(k, []).append(h)
    for k, hs in short.items():
        hists[k] = hists.get(k, [])[: num * 2] + rng.sample(hs, min(len(hs), num))
    items = []
    for s in scs:
        for k, h in enumerate(hists.get(s["id"], [])):
            items.append({"task": "life", "sc": s, "hist": h, "seed": f"{ctx.seed}/{s['id']}/{k}"})
    if not items:
        raise MachineryError("no histories generated")
    results = ctx.pmap(replay, items)
    n = validate(ctx, items, results)
    ctx.notes.update(histories=len(items), validated=n, scenarios=len(scs))
    ctx.sample({"history": items[0]["hist"]})
