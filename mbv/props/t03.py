"""T03: the Tethys scheme."""
from ..core import Episode
from .s04 import WRAP
from .t01 import CONST, LIBS, POOL


def check(ctx):
    ctx.models_parallel([
        (("Blocks", "SPECIFICATION Spec\nINVARIANTS Complete Exact\nCONSTANTS Block = %d\nMaxLen = %d\nTrailing = TRUE\n" % a, "blocks of %d" % a[0]), {})
        for a in [(1, 8), (2, 12), (3, 20), (7, 60)]])
    ctx.refute("Blocks", "SPECIFICATION Spec\nINVARIANTS Complete Exact\nCONSTANTS Block = 3\nMaxLen = 7\nTrailing = FALSE\n",
               "the remainder is not written")
    exe = ctx.build("tethys.cpp", LIBS + ["rocksdb"], standin=True, defines=["SCHEME"], ldflags=WRAP + POOL)
    rng = ctx.rng
    eps = []
    maxl = {64: 2, 128: 10, 512: 58, 4096: 506}
    for h in ctx.generate("KwIndexGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS NKeys = 3\nLens = {0, 1, 2, 3, 4}\n"
                          "Places = {0}\n", limit=ctx.q(40, 125)):
        ops, first = [], 0
        for i, o in enumerate(h):
            ops.append("put w%d %d %d" % (i, first, o["n"]))
            first += o["n"]
        s = ["search w%d" % rng.randrange(4) for _ in range(8)]
        eps.append(Episode(ops + ["build", "open"] + s + ["open"] + s,
                           {"page": rng.choice([64, 128]), "max": max(1, rng.choice([1, first])), "eps": 10, "seed": len(eps)}, "TLC behaviour"))
    for i in range(ctx.q(90, 1500)):
        page = rng.choice([64, 128, 128, 512, 4096])
        b = maxl[page]
        kws = ["kw%d" % k for k in range(rng.choice([1, 4, 12]))] + rng.choice([[], ["@empty", "a-long-keyword-" + "x" * 200]])
        js = rng.random() < 0.2
        if js:
            kws = [k for k in kws if k != "@empty"]
        lists, first = [], 0
        for k in kws:
            n = rng.choice([0, 1, b - 1, b, b + 1, 2 * b, 2 * b + 1, 3 * b, rng.randrange(3 * b), rng.randrange(3 * b)])
            lists.append((k, first, n))
            first += n - (rng.randrange(3) if n > 3 else 0)     # some documents under two keywords
        if js:
            ops = ["json " + " ".join("%s %d %d" % x for x in lists)]
        else:
            ops = ["put %s %d %d" % x for x in lists]
        tot = sum(x[2] + 6 for x in lists)
        ops += ["build"]
        for _ in range(rng.choice([1, 2])):
            s = ["search %s" % k for k in kws * 2 + ["unknown", "kw99"]]
            rng.shuffle(s)
            ops += ["open"] + s
        eps.append(Episode(ops, {"page": page, "max": max(rng.choice([0, 1]), int(tot * rng.choice([0, 0.2, 1, 1, 2]))), "eps": rng.choice([5, 10, 50]),
                                 "seed": i, "json": int(js)}, "random"))
    # more than 2^8 blocks under one keyword, more than 2^8 keywords
    for i in range(ctx.q(3, 8)):
        page = [64, 128, 64][i % 3]
        n = maxl[page] * rng.choice([256, 257, 300, 400]) + rng.choice([0, 1])
        eps.append(Episode(["put a 0 3", "put k 10 %d" % n, "put b %d 7" % (n + 20), "build", "open", "search k", "search a", "search b",
                            "search k"], {"page": page, "max": n + 40, "eps": 10, "seed": i}, "long list"))
        kws = ["kw%d" % k for k in range(rng.choice([300, 600]))]
        ops = ["put %s %d %d" % (k, 7 * j, j % 7) for j, k in enumerate(kws)]
        eps.append(Episode(ops + ["build", "open"] + ["search %s" % k for k in kws], {"page": 128, "max": 8 * len(kws), "eps": 10, "seed": i},
                           "many keywords"))
    ctx.execute(exe, eps, jobs=8, timeout=200, max_crash=3)
    ctx.validate("KwIndexTrace", eps, CONST)
    ctx.assumptions.append("the PRF, the hash function and the key handling are deterministic collision-free stand-ins; "
                           "ChaCha20 is real; keywords are inserted once each")
