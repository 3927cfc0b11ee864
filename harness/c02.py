"""C02: GGN products equal J^T (loss Hessian) J of the empirical risk."""

import live
import riskops
import torch
from cmp import close


def replay(item):
    n, tr, rng, ex = riskops.replay_kind("ggn", item)
    c = item["case"]
    if c["linear"]:
        # linear in the parameters: the GGN is the Hessian (exact, by LinearCase)
        split = rng.choice(ex.splits)
        h, _, _ = riskops.setup("hess", c, split, 0, rng, torch.float64)
        g, _, _ = riskops.setup("ggn", c, split, 0, rng, torch.float64)
        I = torch.eye(h.shape[0], dtype=torch.float64)  # noqa: E741
        close(g @ I, h @ I, "GGN and Hessian of a linear model", tol=1e-8)
        n += 2
    return {"n": n, "traces": tr, "fails": []}


def run(ctx):
    riskops.run_kind(ctx, "ggn", replay, nd=0.25)
    live.run(ctx, ["ggn"])
