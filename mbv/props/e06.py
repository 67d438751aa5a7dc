"""E06: deleting Diana searches."""
from ..core import Episode
from . import dyn
from .e04 import history


def check(ctx):
    dyn.models(ctx, True)
    exe = dyn.build(ctx)
    rng = ctx.rng
    eps = []
    C = 'CONSTANTS Keys = {"a", "b"}\nDocs = {1, 2}\nMaxIns = 6\nCanDelete = TRUE\nCoversAll = TRUE\n'
    for depth, lim in ((5, ctx.q(80, 1000)), (9, ctx.q(120, 2000)), (16, ctx.q(60, 1000))):
        for h in dyn.gen(ctx, "DynGen", C, depth, lim, lim * 2):
            eps.append(Episode(dyn.lower(h, lambda d: dyn.diana_how(rng, int(d))) +
                               ["search a seq 0 1", "search a seq 0 0", "again par 4 0", "search b seq 0 0", "count b"],
                               {"scheme": "diana", "seed": len(eps)}, "TLC behaviour"))
    for i in range(ctx.q(120, 1200)):
        eps.append(Episode(history(rng, rng.choice([5, 20, 60, 150]), True, lambda d: dyn.diana_how(rng, d)),
                           {"scheme": "diana", "seed": i}, "random"))
    for i in range(ctx.q(3, 20)):
        n = rng.choice([300, 600, 1500])
        eps.append(Episode(["bulk " + " ".join("k %d j %d" % (j, j + 1) for j in range(n)),
                            "search k %s" % dyn.diana_how(rng, 1), "again seq 0 0", "ins k 5", "search k partl 8 0", "reopen both",
                            "search j partl 255 1", "forget j", "ins j 7", "search j seq 0 0", "search k seq 0 0"],
                           {"scheme": "diana", "seed": i}, "long list"))
    ctx.execute(exe, eps, jobs=8, timeout=300, max_crash=3)
    ctx.validate("DynTrace", eps, dyn.CONST % "TRUE")
    ctx.assumptions.append(dyn.CRYPTO)
