"""G01: the residual-flow computation yields a valid and maximum flow."""
from ..core import Episode
from . import flow


def check(ctx):
    ctx.models_parallel([
        (("MCFlow", flow.MC % ("PROPERTY Ends\n", 3, 2, 2, "TRUE"), "augmenting paths, all graphs of 2 vertices and 3 edges"), {}),
        (("MCFlow", flow.MC % ("", ctx.q(4, 5), 1, ctx.q(2, 3), "TRUE"), "augmenting paths, unit capacities"), {"workers": 6})])
    ctx.refute("MCFlow", (flow.MC % ("", 5, 1, 2, "FALSE")), "no reciprocal edges", workers=6)
    exe = ctx.build("flow.cpp", ["graph", "logger"])
    eps = []
    for nv, cap, depth, lim in ((2, 2, 3, 400), (2, 1, 5, 300), (3, 1, 4, 400), (4, 1, 7, 0), (3, 2, 6, 0)):
        sim = {} if lim else {"simulate": ctx.q(200, 2000), "depth": depth + 2}
        for h in ctx.generate("FlowGen", flow.GEN % (nv, cap, depth, "FALSE"), limit=ctx.q(lim or 200, 4000), **sim):
            eps.append(Episode(["new %d" % nv] + flow.adds(h) + ["compute", "transform"] + flow.queries(nv, len(h)),
                               {}, "TLC graph"))
    for i in range(ctx.q(200, 3000)):
        n, ops = flow.graph(ctx.rng, ctx.q(1, 2))
        if ctx.rng.random() < 0.3:
            ops.insert(ctx.rng.randrange(len(ops) + 1), "move")
        eps.append(Episode(["new %d" % n] + ops + ["compute", "transform"] + flow.queries(n, sum(o.startswith("add") for o in ops)),
                           {}, "random graph"))
    ctx.execute(exe, eps, jobs=8)
    ctx.validate("FlowTrace", eps, mutate=lambda e: dict(e, r=e["r"] + 1) if e["ev"] in ("total", "eflow", "vflow") else None)
