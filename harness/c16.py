"""C16: the KFAC inverse is the inverse of the damped KFAC matrix."""

import random

import kfacs
import kron
import torch
from cmp import check_map, close, rand_int
from core import Mismatch, decode, fl


def rat(rng, vals):
    return list(rng.choice(vals))


POS = [[1, 2], [1, 1], [2, 1], [1, 10], [3, 4], [1, 100]]


def modes(rng, kind, thorough):
    zero = [[0, 1]] if kind == "spd" else []
    out = [
        {"kind": "pair", "dA": (d := rat(rng, POS + zero)), "dB": d, "single": True},
        {"kind": "pair", "dA": rat(rng, POS + zero), "dB": rat(rng, POS + zero), "single": False},
        {"kind": "heur", "sq": rat(rng, POS), "min": rat(rng, [[1, 10**8], [1, 10**8], [1, 2], [3, 1], [1, 5]])},
        {"kind": "exact", "d": rat(rng, POS + zero)},
    ]
    return out


def build_inverse(op, m, rng, **kw):
    from curvlinops import KFACInverseLinearOperator

    if m["kind"] == "pair":
        d = fl(m["dA"]) if m["single"] else (fl(m["dA"]), fl(m["dB"]))
        kw["damping"] = d
    elif m["kind"] == "heur":
        kw.update(damping=fl(m["sq"]) ** 2, use_heuristic_damping=True, min_damping=fl(m["min"]))
    else:
        kw.update(damping=fl(m["d"]), use_exact_damping=True)
    return KFACInverseLinearOperator(op, **kw)


def replay(item):
    c, g = item["case"], item["cfg"]
    rng = random.Random(item["seed"])
    n = 0
    for rec in item["recs"]:
        m = item["modes"][rec["mode"] - 1]
        D = torch.tensor(decode(rec["damped"]), dtype=torch.float64)
        E = torch.tensor(decode(rec["inverse"]), dtype=torch.float64)
        cond = float(torch.linalg.cond(D))
        if cond > 1e7:
            continue
        for cache in (True, False):
            dtype = torch.float64 if rng.random() < 0.75 or cond > 1e3 else torch.float32
            op, shapes, model = kron.fresh(c, g, rng, dtype)
            kron.inject(op, model, item["blocks"], dtype)
            inv = build_inverse(op, m, rng, cache=cache, retry_double_precision=rng.random() < 0.7)
            what = (f"inverse of KFAC({'separate' if g['sep'] else 'joint'}, params={g['sel']}, {c['arch']}) "
                    f"with {m}, cache={cache}, {dtype}")
            tol = max(1e-9, cond * 1e-14) if dtype == torch.float64 else 3e-6 * max(cond, 50)
            n += check_map(inv, E, shapes, shapes, dtype, rng, what, ks=(rng.choice([1, 2, 4]),), tol=tol)
            if rng.random() < 0.4:
                n += check_map(inv.adjoint(), E, shapes, shapes, dtype, rng, what + ".adjoint()", ks=(2,), tol=tol)
            x = rand_int(rng, (D.shape[0], 2), dtype)
            back = inv @ (D.to(dtype) @ x)
            close(back, x.double(), what + " applied to the damped matrix times x", tol=tol,
                  scale=3 * max(1.0, float(x.abs().max())) * (1 if dtype == torch.float64 else 3))
            n += 1
    return {"n": n, "traces": len(item["recs"]), "fails": []}


# ---------------------------------------------------------------- retry
def singular_pair(rng, n):
    """Singular matrix with exactly representable entries on which a float32
    factorization with a tiny damping must fail."""
    v = [rng.choice([1, 2, -1]) for _ in range(n)]
    return [[[a * b, 1] for b in v] for a in v]


def replay_retry(item):
    """float32 factors, damping below float32 resolution: only double precision works."""
    c, g = item["case"], item["cfg"]
    rng = random.Random(item["seed"])
    rec = item["recs"][0]
    m = item["modes"][0]
    E = torch.tensor(decode(rec["inverse"]), dtype=torch.float64)
    n = 0
    for cache in (True, False):
        op, shapes, model = kron.fresh(c, g, rng, torch.float32)
        kron.inject(op, model, item["blocks"], torch.float32)
        inv = build_inverse(op, m, rng, cache=cache, retry_double_precision=True)
        what = f"retried inverse (params={g['sel']}, {c['arch']}, {m}, cache={cache})"
        n += check_map(inv, E, shapes, shapes, torch.float32, rng, what, ks=(2,), tol=5e-3)
        op2, _, model2 = kron.fresh(c, g, rng, torch.float32)
        kron.inject(op2, model2, item["blocks"], torch.float32)
        bad = build_inverse(op2, m, rng, cache=cache, retry_double_precision=False)
        try:
            bad @ torch.ones(E.shape[0], dtype=torch.float32)
        except RuntimeError:
            pass
        else:
            raise Mismatch(what + ": the factorization cannot succeed in float32, but no error without retry")
        # the factors of the operator keep their precision
        K = op @ torch.eye(E.shape[0])
        if K.dtype != torch.float32:
            raise Mismatch(what + ": operator changed its precision")
        n += 1
    return {"n": n, "traces": 1, "fails": []}


def run(ctx):
    rng = ctx.rng()
    reps = 16 if ctx.thorough else 4
    pairs = kron.gen(rng, kfacs.KARCHS, 48 * reps, maxD=14)
    spec, items = [], {}
    for i, (c, g) in enumerate(pairs, start=1):
        kind = rng.choice(["spd", "spd", "psd"])
        bl = kron.layer_blocks(c, g, rng, kind, square=True)
        ms = modes(rng, kind, ctx.thorough)
        if kind == "psd":
            ms = [m for m in ms if m.get("dA", [1, 1])[0] and m.get("dB", [1, 1])[0]]
        spec.append(kron.spec_case(i, c, g, bl, modes=ms))
        items[i] = {"task": "inverse", "case": c, "cfg": g, "blocks": bl, "modes": ms, "seed": f"{ctx.seed}/{i}"}
    # factorizations that need double precision
    k = len(pairs)
    tiny = [1, 2**30]
    for j, (c, g) in enumerate(kron.gen(rng, ["mlp", "conv", "deep", "linseq"], 12 * reps, maxD=12), start=k + 1):
        bl = kron.layer_blocks(c, g, rng, "spd")
        which = rng.choice(["A", "B"])
        hit = False
        for b in bl:
            F = b[which]
            if len(F) > 1:
                # rank one: a second pivot is zero in float32
                b[which] = singular_pair(rng, len(F)) if len(F) == 2 else _two(rng, len(F))
                hit = True
        if not hit:
            continue
        ms = [{"kind": "pair", "dA": tiny if which == "A" else [1, 2], "dB": tiny if which == "B" else [1, 2],
               "single": False}]
        spec.append(kron.spec_case(j, c, g, bl, modes=ms))
        items[j] = {"task": "retry", "case": c, "cfg": g, "blocks": bl, "modes": ms, "seed": f"{ctx.seed}/{j}"}
    recs = ctx.tlc("KfacInv", spec, weight=lambda s: sum(s["sizes"]) ** 3 * len(s["modes"]))
    for i, it in items.items():
        it["recs"] = recs[i]
    ctx.sample({"blocks": items[1]["blocks"][0], "modes": items[1]["modes"]})
    ctx.pmap(replay, [it for it in items.values() if it["task"] == "inverse"])
    ctx.pmap(replay_retry, [it for it in items.values() if it["task"] == "retry"])
    ctx.notes["retry_cases"] = sum(it["task"] == "retry" for it in items.values())


def _two(rng, n):
    """Block-diagonal: a singular 2 x 2 block and ones."""
    M = [[[0, 1] for _ in range(n)] for _ in range(n)]
    for i in range(n):
        M[i][i] = [1, 1]
    M[0][1] = M[1][0] = [1, 1]
    return M
