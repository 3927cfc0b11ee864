"""C03: the empirical Fisher is the normalised sum of gradient outer products."""

import live
import riskops


def replay(item):
    n, tr, _, _ = riskops.replay_kind("ef", item)
    return {"n": n, "traces": tr, "fails": []}


def run(ctx):
    riskops.run_kind(ctx, "ef", replay, nd=0.25)
    live.run(ctx, ["ef"])
