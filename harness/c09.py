"""C09: the SciPy export represents the same matrix in every SciPy product."""

import random

import iface
import numpy
import torch
from core import Mismatch

DT = {"f8": numpy.float64, "f4": numpy.float32, "f2": numpy.float16, "i8": numpy.int64, "i4": numpy.int32,
      "i2": numpy.int16, "i1": numpy.int8, "u1": numpy.uint8, "b1": numpy.bool_}
TDT = [torch.float64, torch.float64, torch.float32, torch.float16, torch.bfloat16]


def array(a, d, rng):
    shape = (d,) if a["k"] == 0 else (d, a["k"])
    x = numpy.array(a["vals"]).astype(DT[a["dt"]]).reshape(shape)
    lay = a["lay"]
    if lay == "F":
        x = numpy.asfortranarray(x)
    elif lay == "reversed":
        # negative strides, also along axes of length one
        ax = rng.randrange(x.ndim)
        big = numpy.repeat(numpy.flip(x, ax), 2, axis=ax)
        x = big[::-2] if ax == 0 else big[:, ::-2]
    elif lay == "strided":
        big = numpy.full((2 * d, *shape[1:]), 1, dtype=x.dtype)
        big[1::2] = x
        x = big[1::2]
    elif lay == "readonly":
        x.setflags(write=False)
    elif lay == "broadcast":
        x = numpy.broadcast_to(numpy.ones((), dtype=x.dtype), shape)
    return x


def product(sp, p, x):
    if p == "@":
        return sp @ x
    if p == "dot":
        return sp.dot(x)
    if p == "call":
        return sp(x)
    if p == "H@":
        return sp.H @ x
    if p == "T@":
        return sp.T @ x
    return getattr(sp, p)(x)


def check(sp, op_dtype, a, verdict, want, scale, rng, what):
    adj = a["p"] in ("rmatvec", "rmatmat", "H@", "T@")
    x = array(a, sp.shape[0] if adj else sp.shape[1], rng)
    keep = x.copy()
    flags = (x.flags.writeable, x.strides)
    if not verdict["ok"]:
        try:
            got = product(sp, a["p"], x)
        except ValueError:
            return
        raise Mismatch(f"{what}: accepted by SciPy, result {getattr(got, 'shape', got)}")
    got = product(sp, a["p"], x)
    if not isinstance(got, numpy.ndarray):
        raise Mismatch(f"{what}: result is {type(got).__name__}")
    if got.shape != want.shape:
        raise Mismatch(f"{what}: shape {got.shape}, expected {want.shape}")
    if numpy.issubdtype(x.dtype, numpy.floating) and got.dtype != x.dtype:
        raise Mismatch(f"{what}: argument {x.dtype}, result {got.dtype}")
    eps = {torch.float64: 1e-9, torch.float32: 2e-5, torch.float16: 1e-2, torch.bfloat16: 8e-2}[op_dtype]
    if a["dt"] == "f2":
        eps = max(eps, 1e-2)
    elif a["dt"] == "f4":
        eps = max(eps, 1e-5)
    err = numpy.abs(got.astype(float) - want).max() if want.size else 0.0
    if not err <= eps * scale:
        raise Mismatch(f"{what}: {got.tolist()}, expected {want.tolist()} (error {err:.3g})")
    if not numpy.array_equal(x, keep) or (x.flags.writeable, x.strides) != flags:
        raise Mismatch(f"{what}: the argument was changed")
    if numpy.shares_memory(got, x):
        raise Mismatch(f"{what}: the result aliases the argument")


def replay(item):
    c = item["case"]
    rng = random.Random(item["seed"])
    n = 0
    for dtype in sorted(set(TDT), key=str):
        op = iface.dense(c, dtype, scale=0.5)
        for r in rng.sample(item["recs"], min(item["count"], len(item["recs"]))):
            given = rng.choice([None, None, numpy.float32, numpy.float64, "float32"])
            sp = op.to_scipy() if given is None and rng.random() < 0.5 else op.to_scipy(dtype=given)
            if numpy.dtype(sp.dtype) != numpy.dtype("float64" if given is None else given):
                raise Mismatch(f"to_scipy(dtype={given}) has dtype {sp.dtype}")
            if tuple(sp.shape) != tuple(op.shape):
                raise Mismatch(f"exported shape {sp.shape}, operator {op.shape}")
            a, v = r["arg"], r["verdict"]
            want = None
            if v["ok"]:
                want = numpy.array(r["answer"]["vals"][0], dtype=float).reshape(r["answer"]["shapes"][0]) / 2
            what = f"{c['ins']} -> {c['outs']} operator in {dtype}, {a['p']} with {a}"
            check(sp, dtype, a, v, want, 40.0 if want is None else max(1.0, numpy.abs(want).max()), rng, what)
            n += 1
    return {"n": n, "traces": n, "fails": []}


def replay_real(item):
    c = item["case"]
    rng = random.Random(item["seed"])
    dtype = torch.float64 if rng.random() < 0.7 else torch.float32
    op, ins, outs = iface.build(c["net"], c["kind"], c["bseed"], dtype)
    A = iface.reference(op, op.shape[1])
    At = iface.reference(op.adjoint(), op.shape[0])
    scale = max(float(A.abs().max()) * 20, 1e-6)
    what0 = f"{c['kind']} {type(op).__name__} ({c['net']['arch']}, {c['net']['loss']}-{c['net']['red']}, {dtype})"
    if float((A.T - At).abs().max()) > (1e-9 if dtype == torch.float64 else 2e-4) * scale:
        raise Mismatch(f"{what0}: adjoint is not the transpose")
    n = 1
    sp = op.to_scipy()
    for r in rng.sample(item["recs"], min(item["count"], len(item["recs"]))):
        a, v = r["arg"], r["verdict"]
        want = None
        if v["ok"]:
            adj = a["p"] in ("rmatvec", "rmatmat", "H@", "T@")
            X = numpy.array(r["answer"]["rows"], dtype=float)
            want = ((At if adj else A).numpy() @ X).reshape(r["answer"]["shapes"][0])
            if a["dt"] == "f2" and numpy.abs(want).max() > 6e4:
                continue
        check(sp, dtype, a, v, want, scale * (10 if dtype != torch.float64 else 1), rng, f"{what0}, {a['p']} with {a}")
        n += 1
    return {"n": n, "traces": n, "fails": []}


def run(ctx):
    import c08

    rng = ctx.rng()
    t = 4 if ctx.thorough else 1
    cases = iface.matrices(rng, 12 * t, "scipy", (1, 2, 3))
    real = []
    for c in c08.real_cases(rng, len(cases) + 1, t):
        if c["mode"] == "tensor":
            real.append(dict(c, mode="scipy", id=len(cases) + 1 + len(real)))
    recs = ctx.tlc("Interface", [c08.slim(c) for c in cases + real])
    items = [{"task": "dense", "case": c, "recs": recs[c["id"]], "count": 400 * t, "seed": f"{ctx.seed}/{c['id']}"}
             for c in cases]
    ritems = [{"task": "real", "case": c, "recs": recs[c["id"]], "count": 150 * t, "seed": f"{ctx.seed}/{c['id']}"}
              for c in real]
    ctx.sample({"case": c08.slim(cases[0]), "presented": recs[cases[0]["id"]][0]})
    ctx.pmap(replay, items)
    ctx.pmap(replay_real, ritems)
    ctx.assumptions.append("complex, extended-precision and byte-swapped arrays are not covered (PyTorch has no such tensors)")
