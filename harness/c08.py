"""C08: products are one linear map across input formats; malformed input is rejected."""

import random

import iface
import torch
from cmp import close
from core import Mismatch

DTYPES = [torch.float64, torch.float64, torch.float32, torch.float16, torch.bfloat16]


def tensor(rng, shape, vals, dtype):
    t = torch.tensor(vals, dtype=torch.float64).to(dtype).reshape(shape)
    r = rng.random()
    if r < 0.15 and t.ndim == 2:
        t = t.t().contiguous().t()
    elif r < 0.3 and t.ndim:  # a view into a larger tensor
        big = torch.full((2 * t.shape[0], *t.shape[1:]), 7.0, dtype=dtype)
        big[::2] = t
        t = big[::2]
    elif r < 0.4:
        t = torch.nn.Parameter(t, requires_grad=False)
    return t


def argument(rng, a, mode, dtype):
    if mode == "tensor":
        return tensor(rng, a["shape"], a["vals"], dtype)
    if mode == "list":
        return [tensor(rng, s, v, dtype) for s, v in zip(a["shapes"], a["vals"])]
    return None


def foreign(kind, good):
    """Objects that are neither tensors nor lists of tensors (``good`` is a valid list)."""
    return {
        "none": lambda: None,
        "number": lambda: 1.0,
        "text": lambda: "x",
        "array": lambda: torch.cat([g.reshape(-1) for g in good]).double().numpy(),
        "tuple": lambda: tuple(good),
        "dict": lambda: dict(enumerate(good)),
        "generator": lambda: (g for g in good),
        "set": lambda: set(good),
        "list with None": lambda: [*good[:-1], None],
        "list with array": lambda: [*good[:-1], good[-1].double().numpy()],
        "nested list": lambda: [good],
        "list with numbers": lambda: [g.tolist() for g in good],
    }[kind]()


def rejected(f, what):
    try:
        got = f()
    except ValueError:
        return
    except Exception as e:
        raise Mismatch(f"{what}: {type(e).__name__} ({e}) instead of ValueError")
    raise Mismatch(f"{what}: accepted, result {type(got).__name__} "
                   f"{[tuple(g.shape) for g in got] if isinstance(got, list) else getattr(got, 'shape', '')}")


def answered(got, ans, mode, what, tol, scale, dtype):
    if mode == "tensor":
        want = [torch.tensor(ans["vals"][0], dtype=torch.float64).reshape(ans["shapes"][0])]
        got = [got]
    else:
        want = [torch.tensor(v, dtype=torch.float64).reshape(s) for v, s in zip(ans["vals"], ans["shapes"])]
        if not isinstance(got, list):
            raise Mismatch(f"{what}: list argument answered with {type(got).__name__}")
        if len(got) != len(want):
            raise Mismatch(f"{what}: {len(got)} tensors, expected {len(want)}")
    for i, (g, w) in enumerate(zip(got, want)):
        close(g, w, f"{what}, tensor {i}", scale=scale, tol=tol)
        if g.dtype != dtype:
            raise Mismatch(f"{what}: result has dtype {g.dtype}, operator and argument {dtype}")


def replay(item):
    c = item["case"]
    rng = random.Random(item["seed"])
    n = 0
    for r in item["recs"]:
        a, v = r["arg"], r["verdict"]
        dtype = rng.choice(DTYPES)
        what = f"operator {c['ins']} -> {c['outs']}, argument {str(a)[:300]}, {dtype}"
        if c["mode"] == "out":
            answer = [tensor(rng, s, x, dtype) for s, x in zip(a["shapes"], a["vals"])]
            op = iface.dense(c, dtype, answer=answer)
            K = c["k"]
            D = op.shape[1]
            X = torch.ones(D, K, dtype=dtype)
            args = [X, [torch.ones((*s, K), dtype=dtype) for s in c["ins"]]]
            if K == 1:
                args += [torch.ones(D, dtype=dtype), [torch.ones(tuple(s), dtype=dtype) for s in c["ins"]]]
            for j, x in enumerate(args):
                w = f"implementation answering {a['shapes']} to {K} column(s), {what}, argument format {j}"
                if not v["ok"]:
                    rejected(lambda: op @ x, w)
                    continue
                got = op @ x
                flat = torch.cat([t.double().reshape(-1, K) for t in answer])
                if j == 0:
                    close(got, flat, w)
                elif j == 2:
                    close(got, flat[:, 0], w)
                else:
                    shapes = [s if j == 1 else s[:-1] for s in a["shapes"]]
                    answered(got, {"shapes": shapes, "vals": [t.double().tolist() for t in answer]}, "list", w,
                             None, None, dtype)
                n += 1
            n += 1
            continue
        op = iface.dense(c, dtype)
        if c["mode"] == "object":
            good = [torch.ones(tuple(s), dtype=dtype) for s in c["ins"]]
            rejected(lambda: op @ foreign(a["kind"], good), what)
            n += 1
            continue
        x = argument(rng, a, c["mode"], dtype)
        if not v["ok"]:
            rejected(lambda: op @ x, what)
        else:
            keep = x
            lst = list(x) if isinstance(x, list) else None
            vals = [t.detach().clone() for t in (x if isinstance(x, list) else [x])]
            got = op @ x
            answered(got, r["answer"], c["mode"], what, 1e-2 if dtype == torch.bfloat16 else None, None, dtype)
            now = keep if isinstance(keep, list) else [keep]
            if (lst is not None and any(p is not q for p, q in zip(lst, now))) or any(
                    not torch.equal(p, q) for p, q in zip(vals, now)):
                raise Mismatch(f"{what}: the product changed its argument")
            # the adjoint of the adjoint is the same map
            answered(op.adjoint().adjoint() @ x, r["answer"], c["mode"], what + " (adjoint of adjoint)",
                     1e-2 if dtype == torch.bfloat16 else None, None, dtype)
        n += 1
    return {"n": n, "traces": len(item["recs"]), "fails": []}


def replay_real(item):
    """Real operators: the map of every format is that of unit vectors."""
    c = item["case"]
    rng = random.Random(item["seed"])
    dtype = torch.float64
    op, ins, outs = iface.build(c["net"], c["kind"], c["bseed"], dtype)
    what0 = f"{c['kind']} {type(op).__name__} ({c['net']['arch']}, {c['net']['loss']}-{c['net']['red']})"
    if [tuple(s) for s in c["ins"]] != ins or [tuple(s) for s in c["outs"]] != outs:
        raise Mismatch(f"{what0}: maps {ins} to {outs}, expected {c['ins']} to {c['outs']}")
    if tuple(op.shape) != (len(c["A"]), len(c["A"][0])):
        raise Mismatch(f"{what0}: shape {op.shape}")
    A = iface.reference(op, op.shape[1])
    n = 1
    for r in item["recs"]:
        a, v = r["arg"], r["verdict"]
        what = f"{what0}, argument {str(a)[:200]}"
        if c["mode"] == "object":
            good = [torch.ones(tuple(s), dtype=dtype) for s in ins]
            rejected(lambda: op @ foreign(a["kind"], good), what)
            n += 1
            continue
        x = argument(rng, a, c["mode"], dtype)
        if not v["ok"]:
            rejected(lambda: op @ x, what)
        else:
            Y = A @ torch.tensor(r["answer"]["rows"], dtype=torch.float64)
            ans = dict(r["answer"])
            if c["mode"] == "tensor":
                ans["vals"] = [Y.reshape(-1).tolist()]
            else:
                ans["vals"], pos = [], 0
                for s in outs:
                    k = torch.Size(s).numel()
                    ans["vals"].append(Y[pos:pos + k].reshape(-1).tolist())
                    pos += k
            answered(op @ x, ans, c["mode"], what, 1e-9, max(float(A.abs().max()) * 10, 1e-9), dtype)
        n += 1
    return {"n": n, "traces": len(item["recs"]), "fails": []}


def real_cases(rng, first, reps):
    out = []
    for kind in iface.REAL:
        for _ in range(reps):
            net = iface.real_net(rng, kind, 0)
            bseed = f"b{rng.random()}"
            ins, outs = iface.shapes_of(net, kind, bseed)
            if ins is None:
                ins = outs = iface.act_shapes(net, bseed)
            D = sum(torch.Size(s).numel() for s in ins)
            M = sum(torch.Size(s).numel() for s in outs)
            for mode in ("tensor", "list", "object"):
                if mode == "list" and len(ins) > 2:
                    continue
                out.append({"id": first + len(out), "mode": mode, "ins": ins, "outs": outs, "A": [[0] * D] * M, "k": 1,
                            "kind": kind, "net": net, "bseed": bseed})
    return out


def slim(c):
    return {k: c[k] for k in ("id", "mode", "ins", "outs", "A", "k")}


def run(ctx):
    rng = ctx.rng()
    t = 4 if ctx.thorough else 1
    cases = []
    for mode, count, sizes in (("tensor", 24, (1, 2, 3)), ("list", 24, (1, 2)), ("list", 1, (3,)), ("out", 16, (1, 2)),
                               ("object", 4, (1, 2, 3))):
        cases += iface.matrices(rng, count * t, mode, sizes, first=len(cases) + 1)
    real = real_cases(rng, len(cases) + 1, 2 * t)
    recs = ctx.tlc("Interface", [slim(c) for c in cases + real],
                   weight=lambda c: 20 ** min(len(c["ins"]), 3) if c["mode"] in ("list", "out") else 20)
    items = []
    for task, cs in (("dense", cases), ("real", real)):
        for c in cs:
            rs = recs[c["id"]]
            if task == "real":  # malformed ones do not reach the operator's code
                ok = [r for r in rs if r["verdict"]["ok"]]
                no = [r for r in rs if not r["verdict"]["ok"]]
                rs = ok + rng.sample(no, min(len(no), 40))
            for k in range(0, len(rs), 1500):
                items.append({"task": task, "case": c, "recs": rs[k:k + 1500], "seed": f"{ctx.seed}/{c['id']}/{k}"})
    ctx.sample({"case": slim(cases[0]), "presented": recs[cases[0]["id"]][0]})
    ctx.notes["malformed_arguments"] = sum(1 for rs in recs.values() for r in rs if not r["verdict"]["ok"])
    ctx.notes["valid_arguments"] = sum(1 for rs in recs.values() for r in rs if r["verdict"]["ok"])
    ctx.pmap(replay, [i for i in items if i["task"] == "dense"])
    ctx.pmap(replay_real, [i for i in items if i["task"] == "real"])
    ctx.assumptions.append("arguments without columns (K = 0) are not covered")
