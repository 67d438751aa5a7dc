"""U02: key-value files."""
from ..core import Episode

MC = "SPECIFICATION Spec\nINVARIANTS Same Inside\nCONSTANTS Keys = {1, 2}\nVals = {0, 7}\nMaxLen = 2\nMaxPairs = %d\nPeek = %s\n"


def check(ctx):
    ctx.model("KvFile", MC % (ctx.q(3, 4), "TRUE"), "writing and reading back")
    ctx.refute("KvFile", MC % (2, "FALSE"), "the end is only noticed after it was passed")
    exe = ctx.build("kvfile.cpp", [], standin=True, flags=["-fsanitize=address"])
    rng = ctx.rng
    eps = []
    for h in ctx.generate("KwIndexGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS NKeys = 3\nLens = {0, 1, 3}\n"
                          "Places = {0, 1, 10}\n", limit=ctx.q(200, 729)):
        ops = []
        for i, o in enumerate(h):       # the place is the key: 10, 0x0a0a..., makes text-mode mistakes visible
            ops += ["write %d %d %d %d" % (rng.randrange(10), o["p"], 10 * i, o["n"]), "read %d" % rng.randrange(2)]
        eps.append(Episode(["read 0"] + ops, {"kind": "simple"}, "TLC behaviour"))
    for i in range(ctx.q(150, 2000)):
        ops = []
        for _ in range(rng.randrange(6)):
            kv = []
            for _ in range(rng.randrange(8)):
                kv += [rng.choice([0, 1, 10, rng.randrange(2000)]), rng.choice([0, 1, 2, 10, 13, 26, 255, rng.randrange(70000)]),
                       rng.choice([0, 0, 1, 2, 5, 100])]
            ops += ["write %d %s" % (rng.randrange(10), " ".join(map(str, kv)))] + rng.choice([[], ["read %d" % rng.randrange(2)]])
        eps.append(Episode(ops + ["read 1", "read 0"], {"kind": "simple"}, "random"))
    for i in range(ctx.q(150, 2000)):
        size = rng.choice([8, 8, 12])
        c = {8: 3, 12: 3}[size]
        ops, keys = [], list(range(2000))
        rng.shuffle(keys)
        for _ in range(rng.randrange(1, 6)):
            kv = []
            for _ in range(rng.randrange(1, 6)):
                n = rng.choice([0, 1, 2, 5, 30, 57])
                tot = n + 2 * c
                f1 = rng.choice([0, 1, c, c + 1, tot, rng.randrange(tot + 1), rng.randrange(tot + 1)])
                f1 = min(f1, tot)
                f2 = rng.choice([0, tot - f1, rng.randrange(tot - f1 + 1), rng.randrange(tot - f1 + 1)])
                kv += [keys.pop(), rng.choice([0, 2, 10, rng.randrange(70000)]), n, f1, f2]
            ops.append("write 0 " + " ".join(map(str, kv)))
        eps.append(Episode(ops + ["read 1", "read 0"], {"kind": "stash", "size": size, "enc": rng.randrange(2)}, "stash"))
    for i in range(ctx.q(6, 20)):
        n = rng.choice([255, 256, 257, 1000])
        eps.append(Episode(["write 0 7 3 %d 8 5 2 9 0 %d" % (n, rng.choice([0, 256, 1])), "read 0", "read 1"], {"kind": "simple"}, "long list"))
        ops = ["write 0 " + " ".join("%d %d %d" % (k, k, k % 3) for k in range(n)), "read %d" % rng.randrange(2)]
        eps.append(Episode(ops, {"kind": "simple"}, "many pairs"))
    eps.append(Episode(["write 0 7 3 66000 8 5 2", "read 0", "read 1"], {"kind": "simple"}, "long list"))
    ctx.execute(exe, eps, jobs=8, timeout=60, env={"ASAN_OPTIONS": "detect_leaks=0"})

    def mutate(e):
        if e["ev"] != "pair":
            return None
        return dict(e, r=e["r"] + [5])
    ctx.validate("KvFileTrace", eps, mutate=mutate)
