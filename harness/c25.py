"""C25: the dense functorch reference implementations agree with the definitions."""

import random

import nets
import risk
import riskops
import torch
from cmp import close, same_list, split_list
from core import Mismatch


def replay(item):
    from curvlinops.examples import functorch as ft

    c, ex = item["case"], risk.Expect(item["case"], item["recs"])
    rng = random.Random(item["seed"])
    n = 0
    fails = set()
    pick = rng.sample(ex.splits, min(item["splits"], len(ex.splits)))
    for split in pick:
        s = rng.randrange(len(c["sels"]))
        dtype = torch.float64 if rng.random() < 0.85 else torch.float32
        model = nets.build_model(c, dtype, nested=nets.nested(rng))
        params, shapes = risk.listed(c, model, s)
        as_dict = rng.random() < 0.3
        data = nets.batches(c, split, dtype, as_dict)
        data = risk.wrap(rng, data)
        kw = {"input_key": "x"} if as_dict else {}
        loss = nets.build_loss(c)
        what = f"(params={c['sels'][s]}, split={split}, {c['arch']}, {c['loss']}-{c['red']}, dict={as_dict})"
        H = ft.functorch_hessian(model, loss, params, data, **kw)
        close(H.detach(), ex.sub(ex.hess, s), "functorch_hessian" + what, scale=riskops.scale_of("hess", ex))
        G = ft.functorch_ggn(model, loss, params, data, **kw)
        close(G.detach(), ex.sub(ex.ggn, s), "functorch_ggn" + what, scale=riskops.scale_of("ggn", ex))
        E = scalar_crash(lambda: ft.functorch_empirical_fisher(model, loss, params, data, **kw), shapes, fails,
                         "functorch_empirical_fisher")
        if E is not None:
            close(E.detach(), ex.sub(ex.ef, s), "functorch_empirical_fisher" + what, scale=riskops.scale_of("ef", ex))
        J = scalar_crash(lambda: ft.functorch_jacobian(model, params, data, **kw), shapes, fails, "functorch_jacobian")
        order = [i for b in split for i in b]
        if J is not None:
            close(J.detach(), ex.jac(order, s), "functorch_jacobian" + what, scale=riskops.scale_of("jac", ex))
        g, ls = ft.functorch_gradient_and_loss(model, loss, params, data, **kw)
        want = split_list(ex.grad[ex.sels[s]], [tuple(x) for x in shapes])
        sc = max(float(ex.grad.abs().max()), 1e-3)
        same_list([t.detach() for t in g], want, "functorch_gradient" + what, scale=sc)
        close(ls.detach(), torch.tensor(ex.loss, dtype=torch.float64), "functorch loss" + what,
              scale=max(abs(ex.loss), 1e-3))
        n += 6
    n += utils(rng)
    return {"n": n, "traces": len(pick), "fails": sorted(fails)}


def scalar_crash(f, shapes, fails, what):
    """Call ``f``; a crash on 0-dimensional parameters is recorded under its own key."""
    try:
        return f()
    except (IndexError, RuntimeError) as e:
        if not any(len(s) == 0 for s in shapes):
            raise
        fails.add(f"{what}/0-dimensional-parameter raised {type(e).__name__}: {e}")
        return None


def utils(rng):
    """report_nonclose accepts exactly what allclose accepts."""
    import contextlib
    import io

    import numpy as np
    from curvlinops.examples.functorch import blocks_to_matrix
    from curvlinops.examples.utils import report_nonclose

    a = np.array([[rng.randint(-3, 3) for _ in range(3)] for _ in range(2)], dtype=float)
    b = a.copy()
    b[rng.randrange(2), rng.randrange(3)] += rng.choice([1e-3, 0.5, -2.0])
    with contextlib.redirect_stdout(io.StringIO()):
        report_nonclose(a, a.copy())
        report_nonclose(a, b, atol=3.0)
        for x, y in [(a, b), (b, a), (a, a[:1]), (a, a.T)]:
            try:
                report_nonclose(x, y)
            except ValueError:
                continue
            raise Mismatch("report_nonclose accepted different arrays")
    # blocks to matrix: rows and columns in the dictionary's order
    sizes = [rng.randint(1, 3) for _ in range(3)]
    D = sum(sizes)
    M = torch.arange(D * D, dtype=torch.float64).reshape(D, D)
    offs = [sum(sizes[:i]) for i in range(3)]
    blocks = {
        f"p{i}": {f"p{j}": M[offs[i]:offs[i] + sizes[i], offs[j]:offs[j] + sizes[j]] for j in range(3)}
        for i in range(3)
    }
    close(blocks_to_matrix(blocks), M, "blocks_to_matrix")
    return 7


def run(ctx):
    cases = riskops.gen(ctx, reps=4 if ctx.thorough else 1, second=True)
    recs = ctx.tlc("Risk", cases, weight=risk.weight)
    items = [{"task": "ft", "case": c, "recs": recs[c["id"]], "seed": f"{ctx.seed}/{c['id']}",
              "splits": 8 if ctx.thorough else 3} for c in cases]
    ctx.sample({"layers": cases[0]["layers"], "loss": cases[0]["loss"], "behaviour": recs[cases[0]["id"]][-1]})
    ctx.pmap(replay, items)
