"""U01: concatenated ranges iterate over the first range, then the second."""
from ..core import Episode

MC = "SPECIFICATION Spec\nINVARIANTS Follows Readable EndKnown\nCONSTANTS MaxLen = %d\nNormal = %s\n"


def check(ctx):
    ctx.model("MCConcat", MC % (ctx.q(6, 20), "TRUE"), "representation of the position")
    ctx.refute("MCConcat", MC % (2, "FALSE"), "iterator left at the end of an empty first range")
    exe = ctx.build("concat.cpp", [])
    rng = ctx.rng
    eps = []

    def episode(na, nb, ops, origin, c=None, konst=None, alias=0):
        a = [rng.randrange(100) for _ in range(na)]
        b = a if alias else [rng.randrange(100) for _ in range(nb)]
        p = {"c": c or rng.choice(["vector", "list", "deque"]), "konst": rng.randrange(2) if konst is None else konst,
             "alias": alias, "a": ".".join(map(str, a)) + ".", "b": ".".join(map(str, b)) + ".", "first": a, "second": b}
        eps.append(Episode(ops, p, origin))

    # every pair of small sizes: a full walk, comparing at every position with every other iterator
    for na in range(0, 4):
        for nb in range(0, 4):
            for c in ("vector", "list", "deque"):
                for konst in (0, 1):
                    for alias in (0, 1):
                        n = na + (na if alias else nb)
                        ops = ["loop", "begin i", "end e"]
                        for p in range(n + 1):
                            ops += ["at p%d %d%s" % (p, p, rng.choice(["", " 1"])), "eq i e", "eq i p%d" % p, "copy i c", "eq c i"]
                            ops += ["eq i p%d" % q for q in range(p)]
                            if p < n:
                                ops += ["deref i", "deref p%d" % p, "post c d", "deref d", "eq d i", "eq c i"]
                                ops += [rng.choice(["inc i", "post i j"])]
                        episode(na, nb, ops, "all small sizes", c, konst, alias)
    for _ in range(ctx.q(150, 3000)):
        na, nb = rng.choice([0, 0, 1, 2, 9]), rng.choice([0, 1, 2, 9])
        n = na + nb
        pos = {}
        ops = []
        for _ in range(40):
            x = rng.choice("wxyz")
            k = rng.random()
            if x not in pos or k < 0.15:
                w = rng.randrange(3)
                p = [0, n, rng.randrange(n + 1)][w]
                ops.append(["begin " + x, "end " + x, "at %s %d%s" % (x, p, rng.choice(["", " 1"]))][w])
                pos[x] = p
            elif k < 0.4 and pos[x] < n:
                ops.append("inc " + x)
                pos[x] += 1
            elif k < 0.5 and pos[x] < n:
                y = rng.choice([z for z in "wxyz" if z != x])
                ops.append("post %s %s" % (x, y))
                pos[y] = pos[x]
                pos[x] += 1
            elif k < 0.6:
                y = rng.choice("wxyz")
                ops.append("copy %s %s" % (x, y))
                pos[y] = pos[x]
            elif k < 0.75 and pos[x] < n:
                ops.append("deref " + x)
            elif k < 0.85 and pos[x] < n:
                ops.append("write %s %d" % (x, rng.randrange(100)))
            else:
                y = rng.choice([z for z in pos])
                ops.append("eq %s %s" % (x, y))
        ops.append("loop")
        episode(na, nb, ops, "random")
    ctx.execute(exe, eps, jobs=4)
    ctx.validate("ConcatTrace", eps)
