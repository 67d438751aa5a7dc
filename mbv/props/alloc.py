"""Shared by G04 and G05: instances of the allocator."""
from ..core import Episode

MC = "SPECIFICATION Spec\nINVARIANTS NothingLost %s\n%sCONSTANTS NB = %d\nMaxLists = %d\nPage = %d\nChains = %s\n"
GEN = "SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS NB = %d\nPage = %d\nDepth = %d\nHistory = %s\n"


def ins(h):
    return [" ".join(map(str, o)) for o in h]


def exhaustive(ctx, plan):
    eps = []
    for nb, page, depth, lim in plan:
        sim = {} if lim else {"simulate": ctx.q(300, 3000), "depth": depth + 2}
        for h in ctx.generate("AllocGen", GEN % (nb, page, depth, "FALSE"), limit=ctx.q(lim or 300, 6000), **sim):
            eps.append(Episode(ins(h) + ["allocate"], {"nb": nb, "page": page}, "TLC instance"))
    return eps


def rand(rng, big):
    page = rng.choice([1, 2, 3, 10, 63])
    nb = rng.randrange(1, 6 + 6 * big)
    load = rng.choice([0.5, 0.9, 1.0, 1.1, 1.8])
    ops, tot = [], 0
    hot = rng.random() < 0.4
    while tot < load * nb * page and len(ops) < 60:
        n = rng.choice([0, 1, page, rng.randrange(page + 1)])
        u, v = rng.randrange(nb), rng.randrange(nb)
        if hot and rng.random() < 0.6:
            u = rng.randrange(1 + nb // 3)
        if rng.random() < 0.1:
            v = u
        ops.append("insert %d %d %d 0" % (u, v, n))
        tot += max(n, 0.2)
    return nb, page, ops


def chain(rng):
    """Buckets in a line, all full but the last: room is found only through the whole line."""
    page = rng.choice([1, 2, 5])
    nb = rng.randrange(3, 9)
    order = list(range(nb))
    rng.shuffle(order)
    ops = []
    for i in range(nb - 1):
        for _ in range(page):
            ops.append("insert %d %d 1 0" % (order[i], order[i + 1]))
    for _ in range(rng.randrange(1, page + 2)):
        ops.append("insert %d %d 1 0" % (order[0], order[0]))
    rng.shuffle(ops)
    return nb, page, ops
