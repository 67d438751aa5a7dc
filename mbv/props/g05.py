"""G05: the allocator stashes as little as possible."""
from ..core import Episode
from . import alloc


def check(ctx):
    ctx.models_parallel([
        (("MCAlloc", alloc.MC % ("EndSound EndMinimal Criterion", "", 3, ctx.q(3, 4), ctx.q(1, 2), "TRUE"), "moves along chains, three buckets"), {}),
        (("MCAlloc", alloc.MC % ("EndSound EndMinimal Criterion", "", 2, 4, ctx.q(2, 3), "TRUE"), "moves along chains, two buckets"), {})])
    ctx.refute("MCAlloc", alloc.MC % ("EndMinimal", "", 3, 3, 1, "FALSE"), "direct moves only")
    exe = ctx.build("alloc.cpp", ["alloc", "graph", "logger"])
    rng = ctx.rng
    eps = alloc.exhaustive(ctx, [(2, 2, 3, 200), (3, 1, 4, 300), (3, 2, 6, 0), (4, 1, 7, 0)])
    for i in range(ctx.q(350, 4000)):
        nb, page, ops = alloc.rand(rng, ctx.q(1, 3)) if rng.random() < 0.6 else alloc.chain(rng)
        eps.append(Episode(ops + ["allocate"], {"nb": nb, "page": page}, "random"))
    ctx.execute(exe, eps, jobs=8)
    # an element that could stay is stashed instead
    def mutate(e):
        if e["ev"] != "allocate" or e["r"] != "ok" or not any(x > 0 for x in e["a"]) or e["stash"]:
            return None
        i = next(k for k, x in enumerate(e["a"]) if x > 0)
        return dict(e, a=[x - (k == i) for k, x in enumerate(e["a"])], stash=[i + 1],
                    parts=[[p[0], p[1], p[2], p[3] - 1] if p[1] == i + 1 and p[2] == 0 else p for p in e["parts"]])
    ctx.validate("AllocTrace", eps, "CONSTANT CheckMin = TRUE\n", mutate=mutate)
    ctx.extra["instances_with_stash"] = sum(1 for e in eps for o in e.events if o["ev"] == "allocate" and o["stash"])
