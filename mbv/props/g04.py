"""G04: the allocator loses nothing and overfills no bucket."""
from ..core import Episode
from . import alloc


def check(ctx):
    ctx.model("MCAlloc", alloc.MC % ("EndSound", "PROPERTY Ends\n", 2, 3, 2, "TRUE"), "moves along chains, then the stash")
    exe = ctx.build("alloc.cpp", ["alloc", "graph", "logger"])
    rng = ctx.rng
    eps = alloc.exhaustive(ctx, [(2, 2, 3, 250), (2, 3, 3, 250), (3, 2, 6, 0)])
    for h in ctx.generate("AllocGen", alloc.GEN % (2, 2, 4, "TRUE"), simulate=ctx.q(300, 3000), depth=6, limit=ctx.q(300, 3000)):
        eps.append(Episode(alloc.ins(h) + ["query", "allocate", "insert 0 0 1 0", "insert 0 0 9 0", "query", "allocate", "query"],
                           {"nb": 2, "page": 2}, "TLC history"))
    for i in range(ctx.q(250, 3000)):
        nb, page, ops = alloc.rand(rng, ctx.q(1, 3)) if rng.random() < 0.8 else alloc.chain(rng)
        out = []
        for o in ops:
            if rng.random() < 0.1:
                out.append(rng.choice(["insert 0 0 %d 0" % (page + 1), "insert %d 0 1 0" % nb, "insert 0 %d 1 0" % (nb + 3),
                                       "insert 0 0 1 -1", "insert 0 0 100000000 0", "query"]))
            out.append(o)
        eps.append(Episode(out + ["allocate", "query"] + rng.choice([[], ["allocate"], ["insert 0 0 1 0", "allocate"]]),
                           {"nb": nb, "page": page}, "random"))
    ctx.execute(exe, eps, jobs=8)
    ctx.validate("AllocTrace", eps, "CONSTANT CheckMin = FALSE\n", mutate=lambda e: dict(e, a=[x + 1 for x in e["a"]])
                 if e["ev"] == "allocate" and e["r"] == "ok" and e["a"] else None)
    ctx.extra["instances_with_stash"] = sum(1 for e in eps for o in e.events if o["ev"] == "allocate" and o["stash"])
