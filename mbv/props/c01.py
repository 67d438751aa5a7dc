"""C01: the cuckoo allocator."""
from ..core import Episode

MC = "SPECIFICATION MSpec\nINVARIANTS Conserved MayGiveUp\nCONSTANTS N = %d\nMaxId = %d\nMaxDepth = %d\nSwitch = %s\n"


def check(ctx):
    ctx.models_parallel([(("MCCuckoo", MC % (2, ctx.q(4, 5), ctx.q(17, 21), "TRUE"), "tables of two slots"), {}),
                         (("MCCuckoo", MC % (3, 3, ctx.q(4, 13), "TRUE"), "tables of three slots"), {})])
    ctx.refute("MCCuckoo", MC % (2, 3, 3, "FALSE"), "evicted entries stay in the same table")
    exe = ctx.build("cuckooalloc.cpp", ["cuckoo"], standin=True)
    rng = ctx.rng
    eps = []
    gen = ctx.generate("CuckooGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS N = 2\nDepth = 5\n", limit=ctx.q(300, 3000))
    gen += ctx.generate("CuckooGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS N = 3\nDepth = %d\n" % ctx.q(4, 5), limit=ctx.q(400, 6000))
    for h in gen:
        size = 1 + max(max(o["a"], o["b"]) for o in h)
        for d in rng.sample(list(range(1, 8)) + [24, 100], 2):
            eps.append(Episode(["ins %d %d" % (o["a"] + size * rng.randrange(5), o["b"] + size * rng.randrange(5)) for o in h],
                               {"size": max(size, rng.choice([2, 3])), "depth": d}, "TLC behaviour"))
    for i in range(ctx.q(120, 2000)):
        size = rng.choice([1, 2, 5, 9, 16])
        n = max(1, int(size * rng.choice([0.7, 1.5, 1.9, 2.2])))
        big = rng.choice([size, size, 1 << 64])
        ops = []
        for _ in range(n):
            ops.append("ins %d %d" % (rng.randrange(big), rng.randrange(big)))
            if rng.random() < 0.05:
                ops.append("bad 1 1")
        eps.append(Episode(ops, {"size": size, "depth": rng.choice([1, 2, 3, 5, 10, 200])}, "random"))
    ctx.execute(exe, eps, jobs=8)

    def mutate(e):
        if e["ev"] != "ins":
            return None
        return dict(e, t2=[0] * len(e["t2"]), t1=[0] * len(e["t1"]))
    ctx.validate("CuckooTrace", eps, mutate=mutate)
