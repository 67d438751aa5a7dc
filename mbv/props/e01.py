"""E01: Sophos."""
from ..core import Episode
from . import dyn


def history(rng, n, hw, variants=True):
    kws = dyn.keywords(rng, rng.choice([1, 2, 4, 6]))
    ops, ins = [], 0
    docs = rng.choice([3, 20, 500])
    for _ in range(n):
        x = rng.random()
        k = rng.choice(kws)
        if x < 0.6:
            ops.append("ins %s %d" % (k, rng.randrange(docs)))
        elif x < 0.9:
            ops.append("search %s %s" % (rng.choice(kws + ["unknown"]), dyn.sophos_how(rng, hw) if variants and rng.random() < 0.5 else "seq"))
        elif x < 0.95:
            ops.append("request %s" % rng.choice(kws + ["unknown"]))
        else:
            ops.append("reopen %s" % rng.choice(["both", "client", "server"]))
    ops += ["reopen both"] + ["search %s seq" % k for k in kws]
    return ops


def check(ctx):
    dyn.models(ctx, False)
    exe = dyn.build(ctx)
    rng = ctx.rng
    eps = []
    C = 'CONSTANTS Keys = {"a", "b"}\nDocs = {1, 2}\nMaxIns = 6\nCanDelete = FALSE\nCoversAll = TRUE\n'
    for depth, lim in ((5, ctx.q(60, 600)), (9, ctx.q(80, 1000)), (16, ctx.q(40, 600))):
        for h in dyn.gen(ctx, "DynGen", C, depth, lim, lim * 2):
            h = [o for o in h if o["op"] != "again"]
            hw = rng.choice([1, 2, 4, 8])
            eps.append(Episode(dyn.lower(h, lambda d: rng.choice(["seq", dyn.sophos_how(rng, hw)])) +
                               ["search a seq", "search b seq"], {"scheme": "sophos", "hw": hw, "seed": len(eps)}, "TLC behaviour"))
    for i in range(ctx.q(80, 900)):
        hw = rng.choice([1, 2, 4, 8, 64])
        eps.append(Episode(history(rng, rng.choice([5, 20, 60, 150]), hw), {"scheme": "sophos", "hw": hw, "seed": i}, "random"))
    for i in range(ctx.q(2, 12)):
        n = rng.choice([600, 1500])
        eps.append(Episode(["ins k %d" % j for j in range(n)] + ["search k seq", "search k par 8", "reopen both", "search k light 4"],
                           {"scheme": "sophos", "hw": 4, "seed": i}, "long list"))
    for n in [66000] + ([131500] if ctx.q(0, 1) else []):
        eps.append(Episode(["ins j 5", "many k 1 %d" % n, "reopen both", "search k seq", "ins k 3", "reopen both", "ins k 4",
                            "search k par 8", "search j seq"], {"scheme": "sophos", "hw": 4, "seed": n}, "list beyond 2^16"))
    ctx.execute(exe, eps, jobs=8, timeout=300, max_crash=3)
    ctx.validate("DynTrace", eps, dyn.CONST % "FALSE")
    ctx.assumptions.append(dyn.CRYPTO)
