"""E07: Janus."""
from ..core import Episode
from . import dyn

MC = ("SPECIFICATION Spec\nINVARIANTS Exact Idempotent NoGarbage\nPROPERTY SearchKeeps\nCONSTANTS Keys = {%s}\nDocs = {%s}\n"
      "MaxOps = %d\nShortCount = %s\nKeepInsertions = %s\n")


def history(rng, n):
    kws = dyn.keywords(rng, rng.choice([1, 2, 3, 5]))
    docs = rng.choice([2, 4, 10, 60])
    ops = []
    for _ in range(n):
        x = rng.random()
        k = rng.choice(kws)
        if x < 0.45:
            ops.append("ins %s %d" % (k, rng.randrange(docs)))
        elif x < 0.7:
            ops.append("rem %s %d" % (k, rng.randrange(docs)))
        elif x < 0.88:
            ops.append("search %s %s" % (rng.choice(kws + ["unknown"]), dyn.janus_how(rng)))
        elif x < 0.92:
            ops.append("again %s" % dyn.janus_how(rng))
        else:
            ops.append("reopen %s" % rng.choice(["both", "client", "server"]))
    return ops + ["reopen both"] + ["search %s %s" % (k, dyn.janus_how(rng)) for k in kws]


def check(ctx):
    ctx.models_parallel([
        (("EpochIndex", MC % ('"a", "b"', "1, 2", ctx.q(4, 5), "FALSE", "FALSE"), "two keywords"), {}),
        (("EpochIndex", MC % ('"a"', "1, 2, 3", ctx.q(5, 6), "FALSE", "FALSE"), "one keyword"), {})])
    ctx.refute("EpochIndex", MC % ('"a"', "1, 2", 4, "TRUE", "FALSE"), "key shares with the same number")
    ctx.refute("EpochIndex", MC % ('"a"', "1, 2", 4, "FALSE", "TRUE"), "insertions left in the database")
    exe = dyn.build(ctx)
    rng = ctx.rng
    eps = []
    C = ('CONSTANTS Keys = {"a", "b"}\nDocs = {1, 2, 3}\nMaxOps = 100\nShortCount = FALSE\nKeepInsertions = FALSE\n')
    for depth, lim in ((5, ctx.q(60, 600)), (9, ctx.q(100, 1500)), (18, ctx.q(60, 800))):
        for h in dyn.gen(ctx, "EpochGen", C, depth, lim, lim * 2):
            eps.append(Episode(dyn.lower(h, lambda d: dyn.janus_how(rng)) + ["search a seq 0", "search b par 3"],
                               {"scheme": "janus", "seed": len(eps)}, "TLC behaviour"))
    for i in range(ctx.q(120, 1200)):
        eps.append(Episode(history(rng, rng.choice([5, 20, 60, 150])), {"scheme": "janus", "seed": i}, "random"))
    for i in range(ctx.q(2, 12)):
        n = rng.choice([200, 500])
        ops = ["ins k %d" % j for j in range(n)] + ["rem k %d" % j for j in range(0, n, 3)] + ["search k %s" % dyn.janus_how(rng)]
        ops += ["rem k %d" % j for j in range(1, n, 3)] + ["ins k %d" % j for j in range(0, n, 3)] + ["search k %s" % dyn.janus_how(rng)]
        eps.append(Episode(ops, {"scheme": "janus", "seed": i}, "long list"))
    ctx.execute(exe, eps, jobs=8, timeout=300, max_crash=3)
    ctx.validate("EpochTrace", eps, dyn.ECONST)
    ctx.assumptions.append(dyn.CRYPTO)
