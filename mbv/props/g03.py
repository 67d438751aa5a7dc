"""G03: the flow graph refuses invalid vertices and out-of-order calls."""
from ..core import Episode
from . import flow


def check(ctx):
    ctx.model("MCFlow", flow.MC % ("", 3, 1, 2, "TRUE"), "what later results must be")
    exe = ctx.build("flow.cpp", ["graph", "logger"])
    rng = ctx.rng
    eps = []
    tail = ["total", "compute", "add inner 0 0 1", "eflow 0", "transform", "compute", "pcompute", "transform", "total"] + flow.queries(2, 9)

    def fin(h, n):
        ops = ["new %d" % n] + flow.adds(h)
        m = len(ops)
        return ops + tail
    for h in ctx.generate("FlowGen", flow.GEN % (2, 1, 3, "TRUE"), limit=ctx.q(700, 20000)):
        eps.append(Episode(fin(h, 2), {}, "TLC history"))
    for h in ctx.generate("FlowGen", flow.GEN % (2, 2, 10, "TRUE"), simulate=ctx.q(200, 3000), depth=12, limit=ctx.q(200, 3000)):
        eps.append(Episode(fin(h, 2), {}, "TLC history"))
    for i in range(ctx.q(150, 2000)):
        n, ops = flow.graph(rng, 0)
        m = len(ops)
        body = ops + ["compute" if rng.random() < 0.7 else "pcompute 2", "transform"]
        out = []
        for o in body:
            while rng.random() < 0.4:
                big = rng.choice([n, n + 1, n + 7, 1 << 40, (1 << 63) - 1])
                bad = ["add inner %d 0 1" % big, "add inner 0 %d 1" % big, "add source 0 %d 1" % big, "add sink %d 0 1" % big,
                       "transform" if o not in ("transform",) else "compute", "total", "eflow 0", "vflow 0 in", "vflow s out",
                       "new 0"]
                if o == "transform":
                    bad += ["add inner 0 0 5", "add source 0 0 5", "add sink 0 0 5", "compute", "pcompute 3"]
                b = rng.choice(bad)
                out.append(b)
            out.append(o)
        out += ["add inner 0 0 5", "compute", "transform", "add source 0 0 1", "add sink 0 0 1", "pcompute"]
        eps.append(Episode(["new %d" % n] + out + flow.queries(n, m), {}, "random, refused calls"))
    ctx.execute(exe, eps, jobs=8)
    ctx.validate("FlowTrace", eps, mutate=lambda e: dict(e, r="ok" if e["r"] != "ok" else "state") if e["ev"] in ("add", "transform") else None)
    ctx.extra["refused_calls"] = sum(1 for e in eps for o in e.events if o.get("r") in ("state", "range", -1))
