"""C15: KFAC state dictionaries restore an equivalent, independent operator."""

import lifes

MULTI = [a for a in lifes.ARCHS if a not in ("linear", "linseq")]
SETTINGS = ["seed", "M", "terms", "sep", "nd", "fisher", "approx"]


def run(ctx):
    rng = ctx.rng()
    scs = []
    for rep in range(6 if ctx.thorough else 2):
        for arch in lifes.ARCHS:
            bad = ["bad"] if arch in MULTI else []
            for acts, nops, nmod, mc, differ in (
                (["use", "save", "load", "run"], 2, 2, False, None),
                (["use", "save", "load", "set", "new"] + bad, 2, rng.choice([1, 2]), False, None),
                (["use", "save", "load", "new"] + bad, 2, 2, True, None),
                (["use", "save", "load", "new", "set"], 2, 2, bool(len(scs) % 2), SETTINGS[len(scs) // 4 % 7]),
            ):
                if differ in ("seed", "M"):
                    mc = True
                if differ == "fisher":
                    mc = False
                scs.append(lifes.scenario(rng, len(scs) + 1, arch, acts, nops=nops, nmod=nmod, mc=mc, differ=differ,
                                          depth=12 if ctx.thorough else 9))
    lifes.run(ctx, scs, num=80 if ctx.thorough else 24)
