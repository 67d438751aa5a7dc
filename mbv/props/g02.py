"""G02: the parallel max-flow computes the same optimum as the sequential one."""
from ..core import Episode
from . import flow


def join(rng, parts):
    """Disjoint union of graphs, vertices shuffled."""
    total = sum(n for n, _ in parts)
    names = list(range(total))
    rng.shuffle(names)
    ops, base = [], 0
    for n, o in parts:
        for x in o:
            w = x.split()
            if w[1] != "source":
                w[2] = str(names[base + int(w[2])])
            if w[1] != "sink":
                w[3] = str(names[base + int(w[3])])
            ops.append(" ".join(w))
        base += n
    rng.shuffle(ops)
    return total, ops


def check(ctx):
    ctx.models_parallel([
        (("MCFlow", flow.MC % ("PROPERTY Ends\n", 3, 1, 3, "TRUE"), "components augmenting independently, 3 vertices"), {}),
        (("MCFlow", flow.MC % ("", ctx.q(4, 5), 1, ctx.q(2, 3), "TRUE"), "components augmenting independently"), {"workers": 6})])
    exe = ctx.build("flow.cpp", ["graph", "logger"])
    eps = []
    rng = ctx.rng

    def both(n, ops, origin):
        m = len(ops)
        how = rng.choice(["pcompute", "pcompute 1", "pcompute 2", "pcompute 4", "pcompute 8", "pcompute 13"])
        eps.append(Episode(["new %d" % n] + ops + [how, "transform"] + flow.queries(n, m), {}, origin))
        return m
    for nv, cap, depth, lim in ((2, 2, 3, 300), (3, 1, 4, 400), (4, 1, 8, 0)):
        sim = {} if lim else {"simulate": ctx.q(250, 2500), "depth": depth + 2}
        for h in ctx.generate("FlowGen", flow.GEN % (nv, cap, depth, "FALSE"), limit=ctx.q(lim or 250, 4000), **sim):
            both(nv, flow.adds(h), "TLC graph")
    for i in range(ctx.q(250, 3000)):
        parts = [flow.graph(rng, 0) for _ in range(rng.choice([1, 2, 3, 8]))]
        n, ops = join(rng, parts)
        both(n, ops, "random components")
    # two components that augment many times, at the same time
    for i in range(ctx.q(12, 100)):
        n, ops = join(rng, [flow.layered(rng, 4, 6, 9) for _ in range(6)])
        both(n, ops, "concurrent components")
    ctx.execute(exe, eps, jobs=4)
    ctx.validate("FlowTrace", eps, mutate=lambda e: dict(e, r=e["r"] + 1) if e["ev"] in ("total", "eflow", "vflow") else None)
    ctx.extra["parallel_computations"] = sum(1 for e in eps for o in e.events if o["ev"] == "compute" and o["how"] == "pcompute")
