"""C23: activation Hessian equals the loss Hessian w.r.t. the chosen feature."""

import math
import random

import live
import nets
import risk
import torch
from cmp import check_map
from core import Mismatch, decode, frac

LN2 = math.log(2.0)


def op_of(model, loss, act, data, rng):
    from curvlinops.experimental import ActivationHessianLinearOperator

    return ActivationHessianLinearOperator(
        model, loss, act, data, check_deterministic=rng.random() < 0.1, progressbar=rng.random() < 0.05
    )


def dense(c, rec, power=2):
    """Block-diagonal matrix over data from the specification's record."""
    N, d = len(c["x"]), rec["dim"]
    s = 1.0 if c["loss"] == "mse" else LN2
    norm = float(frac(rec["norm"]))
    M = torch.zeros(N * d, N * d, dtype=torch.float64)
    for n in range(N):
        gn = torch.tensor(decode(rec["gn"][n]), dtype=torch.float64)
        rs = torch.tensor(decode(rec["rs"][n]), dtype=torch.float64)
        M[n * d:(n + 1) * d, n * d:(n + 1) * d] = norm * (s**power * gn + s ** (power - 1) * rs)
    return M


def replay(item):
    c = item["case"]
    rng = random.Random(item["seed"])
    N = len(c["x"])
    loss = nets.build_loss(c)
    n = tr = 0
    L = len(c["layers"])
    idx = list(range(1, N + 1))
    for rec in item["recs"]:
        l = rec["layer"]  # noqa: E741
        M = dense(c, rec)
        views = []
        if c["layers"][l - 1]["k"] != "res":
            views += [("plain", l - 1, "output", 0, M), ("out", l - 1, "output", 1, M)]
        if l < L and c["layers"][l]["k"] != "res":
            views += [("plain", l, "input", 0, M), ("in", l, "input", 1, M)]
        if l == L:
            views.append(("plain", "final", "input", 0, M))
            views.append(("plain", "final", "output", 0, dense(c, rec, 0)))
            views.append(("plain", "", "output", 0, dense(c, rec, 0)))
        for how, mod, side, pos, E in views:
            form = ()
            if pos:  # one of several entries
                size = rng.choice([2, 3])
                pos = rng.randrange(size)
                kind = rng.choice(["tuple", "tuple", "list", "named"])
                size = 3 if kind == "named" else size
                form = (size, pos, kind)
            dtype = torch.float64 if rng.random() < 0.8 else torch.float32
            model = nets.build_model(c, dtype, nested=nets.nested(rng), inplace=rng.random() < 0.5,
                                     pair={mod: (how, *form)} if how != "plain" else None)
            if rng.random() < 0.5:
                model.eval()
            name = mod if isinstance(mod, str) else model.index[mod]
            data = risk.wrap(rng, nets.batches(c, [idx], dtype))
            op = op_of(model, loss, (name, side, pos), data, rng)
            what = f"ActivationHessian({c['arch']}, {c['loss']}-{c['red']}, layer {l} of {L}, {name!r} {side} {pos})"
            if tuple(op.shape) != tuple(E.shape):
                raise Mismatch(f"{what}: shape {op.shape}, expected {tuple(E.shape)}")
            shape = _feature_shape(c, l, dtype)
            sc = max(float(E.abs().max()), 0.1) * 3
            n += check_map(op, E, [shape], [shape], dtype, rng, what, ks=(rng.choice([1, 2, 3]),), scale=sc)
            if rng.random() < 0.3:
                n += check_map(op.adjoint(), E, [shape], [shape], dtype, rng, what + ".adjoint()", ks=(2,),
                               scale=sc)
            tr += 1
    if "other" in item:
        n += follow(c, item["recs"], item["other"], item["orecs"], rng)
    n += reject(c, loss, rng)
    return {"n": n, "traces": tr, "fails": []}


def follow(c, recs, other, orecs, rng):
    """The operator follows parameters and data overwritten after its construction."""
    N = len(c["x"])
    idx = list(range(1, N + 1))
    n = 0
    for rec, orec in zip(recs, orecs):
        l = rec["layer"]  # noqa: E741
        if c["layers"][l - 1]["k"] == "res" or rng.random() < 0.5:
            continue
        model = nets.build_model(c)
        data = nets.batches(c, [idx])
        op = op_of(model, nets.build_loss(c), (model.index[l - 1], "output", 0), data, rng)
        shape = _feature_shape(c, l, torch.float64)
        now, step = 0, []
        for _ in range(4):
            E = [dense(c, rec), dense(other, orec)][now]
            step.append(now)
            n += check_map(op, E, [shape], [shape], torch.float64, rng,
                           f"ActivationHessian({c['arch']}, {c['loss']}-{c['red']}, layer {l}) after versions {step}",
                           ks=(1,), scale=max(float(E.abs().max()), 0.1) * 3)
            if rng.random() < 0.7:
                now = 1 - now
                live.set_params(model, [c, other][now])
                X, y = nets.batches([c, other][now], [idx])[0]
                if rng.random() < 0.5:
                    data[0] = (X, y)
                else:
                    data[0][0].copy_(X)
                    data[0][1].copy_(y)
    return n


def _feature_shape(c, l, dtype):  # noqa: E741
    model = nets.build_model(c, dtype)
    got = []
    x = nets.inputs(c, range(1, len(c["x"]) + 1), dtype)
    acts = [x]
    with torch.no_grad():
        for k, ly in enumerate(c["layers"][:l]):
            y = model.layer(k)(acts[-1])
            if ly["k"] == "res":
                y = y + acts[ly["from"]]
            acts.append(y)
    got = acts[-1]
    return tuple(got.shape)


def reject(c, loss, rng):
    """Configurations that must be rejected at construction."""
    N = len(c["x"])
    idx = list(range(1, N + 1))
    model = nets.build_model(c)
    good = model.index[0]
    one = nets.batches(c, [idx])
    bad = [
        ((good + "x", "output", 0), one, ValueError), (("nope", "input", 0), one, ValueError),
        ((good, "out", 0), one, ValueError), ((good, "Output", 0), one, ValueError),
        ((good, "", 0), one, ValueError), ((good, "output", 1), one, ValueError),
        ((good, "output", -1), one, ValueError), ((good, "input", 1), one, Exception),
        ((good, "output", 0), nets.batches(c, [idx, idx]), ValueError),
        ((good, "output", 0), nets.batches(c, [idx[:1], idx, idx]), ValueError),
        ((good, "input", 0), nets.batches(c, [idx, idx]), ValueError),
    ]
    if N > 1:
        bad.append(((good, "output", 0), nets.batches(c, [idx[:1], idx[1:]]), ValueError))
    for act, data, exc in bad:
        data = risk.wrap(rng, data)
        try:
            op_of(model, loss, act, data, rng)
        except exc:
            pass
        except Exception as e:
            raise Mismatch(f"activation {act}: expected {exc.__name__}, got {type(e).__name__}: {e}") from e
        else:
            raise Mismatch(f"activation {act} with {len(list(data))} batches was accepted")
        if any(m._forward_hooks or m._forward_pre_hooks for m in model.modules()):
            raise Mismatch(f"hooks left behind after rejecting {act}")
    pair = nets.build_model(c, pair={0: "out"})
    for pos in (2, 5):
        try:
            op_of(pair, loss, (good, "output", pos), one, rng)
        except Exception:
            continue
        raise Mismatch(f"output position {pos} of a pair was accepted")
    return len(bad) + 2


def run(ctx):
    rng = ctx.rng()
    cases = []
    for rep in range(4 if ctx.thorough else 1):
        for arch in nets.ARCHS:
            for loss in ("mse", "ce", "bce"):
                for red in ("mean", "sum"):
                    c = nets.make_case(rng, arch, loss, red, rng.choice([1, 2, 3]), len(cases) + 1)
                    cases.append(c)
    others = {}
    for c in list(cases):
        if rng.random() < 0.4:
            o = live.sibling(rng, c, True, True)
            if o is not None:
                o["id"] = len(cases) + 1
                others[c["id"]] = o
                cases.append(o)
    recs = ctx.tlc("Act", cases, weight=lambda c: len(c["x"]) * len(c["layers"]) ** 2)
    items = [{"task": "act", "case": c, "recs": recs[c["id"]], "seed": f"{ctx.seed}/{c['id']}"} for c in cases]
    for it in items:
        o = others.get(it["case"]["id"])
        if o is not None:
            it.update(other=o, orecs=recs[o["id"]])
    ctx.sample({"layers": cases[0]["layers"], "features": [r["layer"] for r in recs[cases[0]["id"]]]})
    ctx.pmap(replay, items)
    ctx.assumptions.append("features that do not require a gradient (the network's own input) are not covered")
