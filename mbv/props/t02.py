"""T02: the encoding of one bucket."""
from ..core import Episode

MC = "SPECIFICATION Spec\nINVARIANTS Fits Exact\nCONSTANTS Keys = {%s}\nCap = %d\nC = %d\nMaxN = %d\nWriteEmpty = %s\n"


def ceil(a, b):
    return (a + b - 1) // b


def blocks(rng, page, size, spec=None):
    """Operations filling one bucket within its capacity, leaving part of it free or none."""
    c = ceil(8, size) + ceil(16, size)
    cap = page // size
    left = cap
    ops, first, keys = [], 0, []
    pool = list(range(2, 40))
    rng.shuffle(pool)
    if rng.random() < 0.5:
        pool[:0] = [0, 1]
    last = 255 if size == 1 else 60000
    for k in pool:
        if not left or (ops and rng.random() < 0.1):
            break
        maxn = max(0, cap - 2 * c)
        n = rng.choice([0, 0, 1, 2, rng.randrange(maxn + 1), maxn])
        n = min(n, maxn, last - first)
        tot = n + 2 * c
        x = rng.random()
        f = rng.choice([0, 1, c - 1, c, c + 1, 2 * c, tot, tot - c, rng.randrange(tot + 1), rng.randrange(tot + 1)])
        if x < 0.25:
            f = left        # exactly the rest of the page
        f = max(0, min(f, tot, left))
        dual = rng.choice([0, tot - f, rng.randrange(tot - f + 1)])
        ops.append("block %d %d %d %d %d %s" % (k, n, first, f, dual, rng.choice(["in", "out"])))
        keys.append(k)
        first += n
        left -= f
    return ops, keys, pool[len(keys):]


def check(ctx):
    jobs = [(("BucketLayout", MC % ("k1, k2", ctx.q(7, 9), 2, 3, "FALSE"), "two lists in two buckets"), {}),
            (("BucketLayout", MC % ("k1, k2, k3", ctx.q(5, 7), 2, ctx.q(1, 2), "FALSE"), "three lists in two buckets"), {}),
            (("BucketLayout", MC % ("k1, k2", ctx.q(7, 9), 3, 2, "FALSE"), "padded control words"), {})]
    ctx.models_parallel(jobs)
    ctx.refute("BucketLayout", MC % ("k1, k2", 6, 2, 2, "TRUE"), "lengths of zero are written")
    exe = ctx.build("bucket.cpp", [], standin=True, flags=["-fsanitize=address"])
    rng = ctx.rng
    eps = []
    for i in range(ctx.q(900, 12000)):
        size = rng.choice([8, 8, 4, 16, 12, 3, 24, 1])
        page = rng.choice([96, 128, 128, 512] + ([4096] if rng.random() < 0.2 else []))
        ops = []
        for _ in range(2):
            b, keys, others = blocks(rng, page, size)
            asked = keys + others[:2]
            ops += ["start"] + b + ["finish"] + ["decode %d %s" % (k, rng.choice(["first", "second"])) for k in asked]
        eps.append(Episode(ops, {"size": size, "page": page, "enc": rng.choice([0, 0, 1 + i]),
                                 "keys": rng.choice([0, 0, rng.randrange(1, 19)]), "index": rng.choice([0, 1, 255, 256, 70000])}, "random buckets"))
    ctx.execute(exe, eps, jobs=8, env={"ASAN_OPTIONS": "detect_leaks=0"}, timeout=30, max_crash=3)
    ctx.validate("BucketTrace", eps)
