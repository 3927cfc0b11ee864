"""C14: KFAC factors are computed once, completely, and survive failures cleanly."""

import kfacs
import lifes


def run(ctx):
    rng = ctx.rng()
    scs = []
    acts = ["use", "use", "fault", "run", "set", "inv"]
    for rep in range(6 if ctx.thorough else 2):
        for arch in lifes.ARCHS:
            for loss, mc in ((None, False), ("mse", False), (None, True)):
                ninv = 1 if loss == "mse" and not mc else 0
                scs.append(lifes.scenario(rng, len(scs) + 1, arch, acts, loss=loss, ninv=ninv, mc=mc,
                                          depth=12 if ctx.thorough else 8))
    lifes.run(ctx, scs, num=80 if ctx.thorough else 24, inverses=True)
