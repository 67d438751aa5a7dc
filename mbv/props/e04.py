"""E04: Diana."""
from ..core import Episode
from . import dyn


def history(rng, n, delete, how=None):
    kws = dyn.keywords(rng, rng.choice([1, 2, 4, 6]))
    docs = rng.choice([3, 20, 500])
    how = how or (lambda d: dyn.diana_how(rng, d) if rng.random() < 0.4 else "seq 0 %d" % d)
    ops = []
    for _ in range(n):
        x = rng.random()
        k = rng.choice(kws)
        if x < 0.4:
            ops.append("ins %s %d" % (k, rng.randrange(docs)))
        elif x < 0.55:
            ops.append("bulk " + " ".join("%s %d" % (rng.choice(kws), rng.randrange(docs)) for _ in range(rng.choice([1, 2, 5, 12]))))
        elif x < 0.78:
            ops.append("search %s %s" % (rng.choice(kws + ["unknown"]), how(int(delete and rng.random() < 0.4))))
        elif x < 0.84:
            ops.append("again %s" % how(int(delete and rng.random() < 0.4)))
        elif x < 0.87:
            ops.append("count %s" % rng.choice(kws + ["unknown"]))
        elif x < 0.9 and delete:
            ops.append("forget %s" % k)
        elif x < 0.93:
            ops.append("request %s" % rng.choice(kws + ["unknown"]))
        else:
            ops.append("reopen %s" % rng.choice(["both", "client", "server"]))
    return ops + ["reopen both"] + ["count %s" % k for k in kws] + ["search %s seq 0 0" % k for k in kws]


def check(ctx):
    dyn.models(ctx, False)
    exe = dyn.build(ctx)
    rng = ctx.rng
    eps = []
    C = 'CONSTANTS Keys = {"a", "b"}\nDocs = {1, 2}\nMaxIns = 6\nCanDelete = FALSE\nCoversAll = TRUE\n'
    for depth, lim in ((5, ctx.q(60, 600)), (9, ctx.q(80, 1000)), (16, ctx.q(40, 600))):
        for h in dyn.gen(ctx, "DynGen", C, depth, lim, lim * 2):
            eps.append(Episode(dyn.lower(h, lambda d: rng.choice(["seq 0 %d" % d, dyn.diana_how(rng, int(d))])) +
                               ["search a seq 0 0", "count a", "search b seq 0 0", "count b"],
                               {"scheme": "diana", "seed": len(eps)}, "TLC behaviour"))
    for i in range(ctx.q(90, 900)):
        eps.append(Episode(history(rng, rng.choice([5, 20, 60, 150]), False), {"scheme": "diana", "seed": i}, "random"))
    for i in range(ctx.q(2, 12)):
        n = rng.choice([600, 1500])
        eps.append(Episode(["bulk " + " ".join("k %d" % j for j in range(n)), "search k seq 0 0", "search k partl 8 0", "reopen both",
                            "search k partl 255 0", "count k"], {"scheme": "diana", "seed": i}, "long list"))
    for n in [66000] + ([131500] if ctx.q(0, 1) else []):
        eps.append(Episode(["bulk j 5 j 6", "many k 1 %d 700" % n, "reopen both", "search k seq 0 0", "many k 7 3", "many k 10 5 5",
                            "reopen both", "count k", "search k partl 8 0", "search j seq 0 0"],
                           {"scheme": "diana", "seed": n}, "list beyond 2^16"))
    ctx.execute(exe, eps, jobs=8, timeout=300, max_crash=3)
    ctx.validate("DynTrace", eps, dyn.CONST % "TRUE")
    ctx.assumptions.append(dyn.CRYPTO)
