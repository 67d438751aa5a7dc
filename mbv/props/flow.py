"""Shared by G01, G02 and G03: flow graphs."""
from ..core import Episode

MC = ("SPECIFICATION Spec\nINVARIANTS StepsValid EndIsMaximum Criterion\n%sCONSTANTS MaxEdges = %d\nMaxCap = %d\nNV = %d\nUseReverse = %s\n")
GEN = "SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS NV = %d\nMaxCap = %d\nDepth = %d\nHistory = %s\n"


def queries(n, m):
    q = ["total"]
    q += ["eflow %d" % i for i in range(m)] + ["ecap %d" % i for i in range(m)]
    for v in [str(i) for i in range(n)] + ["s", "t"]:
        q += ["%s %s %s" % (k, v, d) for k in ("vflow", "vcap") for d in ("in", "out")]
    return q


def adds(h):
    return ["add %s %d %d %d" % tuple(o[1:]) if o[0] == "add" else " ".join(map(str, o)) for o in h]


def random_graph(rng, n, m, maxcap, comps=1, shape="any"):
    ops = []
    for _ in range(m):
        c = rng.choice([0, 1, 1, 2, 3, maxcap, rng.randrange(maxcap + 1)])
        x = rng.random()
        k = rng.randrange(comps)
        vs = [v for v in range(n) if v % comps == k] or [0]
        if shape == "path":
            a = rng.randrange(n)
            b = min(n - 1, a + rng.choice([1, 1, 1, 2]))
        else:
            a, b = rng.choice(vs), rng.choice(vs)
        if x < 0.2 or (shape == "path" and x < 0.1):
            ops.append("add source 0 %d %d" % (b if shape != "path" else rng.randrange(min(3, n)), c))
        elif x < 0.4 and shape != "path" or x > 0.9:
            ops.append("add sink %d 0 %d" % (a if shape != "path" else n - 1 - rng.randrange(min(3, n)), c))
        else:
            ops.append("add inner %d %d %d" % (a, b, c))
    return ops


def layered(rng, layers, width, maxcap):
    """Graphs that need flow pushed back over reciprocal edges."""
    n = layers * width
    ops = ["add source 0 %d %d" % (v, rng.randrange(1, maxcap + 1)) for v in range(width)]
    for i in range(layers - 1):
        for _ in range(width * 2):
            ops.append("add inner %d %d %d" % (i * width + rng.randrange(width), (i + 1) * width + rng.randrange(width),
                                               rng.randrange(1, maxcap + 1)))
    ops += ["add sink %d 0 %d" % (n - 1 - v, rng.randrange(1, maxcap + 1)) for v in range(width)]
    rng.shuffle(ops)
    return n, ops


def graph(rng, big=1):
    if rng.random() < 0.35:
        n, ops = layered(rng, rng.randrange(2, 4 + big), rng.randrange(1, 4 + big), rng.choice([1, 2, 9]))
        return n, ops
    n = rng.randrange(1, 8 + 6 * big)
    return n, random_graph(rng, n, rng.randrange(0, 4 * n), rng.choice([1, 2, 5, 1000000]), rng.choice([1, 1, 2, 3]),
                           rng.choice(["any", "any", "path"]))
