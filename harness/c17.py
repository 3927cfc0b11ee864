"""C17: KFAC inverses give history-independent results and restore from their state."""

import lifes


def run(ctx):
    rng = ctx.rng()
    scs = []
    for rep in range(6 if ctx.thorough else 2):
        for arch in lifes.ARCHS:
            for acts, nops, ninv in (
                (["use", "inv", "run", "set", "fault"], 1, 2),
                (["use", "inv", "saveinv", "loadinv"], 2, 2),
                (["inv", "saveinv", "loadinv", "set", "save", "load"], 1, 1),
            ):
                scs.append(lifes.scenario(rng, len(scs) + 1, arch, acts, loss="mse", nops=nops, nmod=nops,
                                          ninv=ninv, depth=12 if ctx.thorough else 9))
    lifes.run(ctx, scs, num=80 if ctx.thorough else 24, inverses=True)
