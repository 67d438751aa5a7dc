"""C04: the Pluto scheme."""
from ..core import Episode
from .s04 import WRAP
from .t01 import CONST, LIBS, POOL


def check(ctx):
    mc = "SPECIFICATION Spec\nINVARIANTS Exact Padded\nCONSTANTS Block = %d\nRoom = %d\nMaxLen = %d\nCut = %s\n"
    ctx.models_parallel([(("PlutoBlocks", mc % (a + ("TRUE",)), "full blocks of %d in rows of %d" % a[:2]), {})
                         for a in [(1, 1, 4), (2, 3, 9), (3, 3, 10), (5, 7, 21)]])
    ctx.refute("PlutoBlocks", mc % (3, 4, 7, "FALSE"), "the whole row is returned")
    exe = ctx.build("pluto.cpp", LIBS + ["rocksdb", "cuckoo", "pluto_rocks"], standin=True, ldflags=WRAP + POOL[1:])
    rng = ctx.rng
    eps = []
    blk = {128: 10, 512: 58, 4096: 506}

    def par(i):
        page = rng.choice([128, 128, 128, 512, 4096])
        return {"page": page, "back": rng.choice(["cuckoo", "cuckoo", "rocks", "rcuckoo"]), "seed": i,
                "depth": rng.choice([200, 200, 0, 1])}

    for h in ctx.generate("KwIndexGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS NKeys = 3\n"
                          "Lens = {0, 1, 9, 10, 11, 20, 21}\nPlaces = {0}\n", limit=ctx.q(60, 343)):
        p = par(len(eps))
        ops, first = [], 0
        for i, o in enumerate(h):
            ops.append("put w%d %d %d" % (i, first, o["n"]))
            first += o["n"]
        s = ["search w%d" % rng.randrange(4) for _ in range(8)]
        p.update(page=128, n=rng.choice([0, 1, first]), tmax=rng.choice([0, 1, 1, first + 18]))
        eps.append(Episode(ops + ["build", "open"] + s + ["open"] + s, p, "TLC behaviour"))
    for i in range(ctx.q(90, 1500)):
        p = par(i)
        b = blk[p["page"]]
        kws = ["kw%d" % k for k in range(rng.choice([0, 1, 4, 12]))] + rng.choice([[], ["@empty", "a-long-keyword-" + "x" * 200]])
        js = rng.random() < 0.2
        if js:
            kws = [k for k in kws if k != "@empty"]
        lists, first = [], 0
        for k in kws:
            n = rng.choice([0, 1, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b, rng.randrange(3 * b), rng.randrange(3 * b)])
            lists.append((k, first, n))
            first += n - (rng.randrange(3) if n > 3 else 0)
        if js:
            ops = ["json " + " ".join("%s %d %d" % x for x in lists)]
        else:
            ops = ["put %s %d %d" % x for x in lists]
        ops += (["move"] if rng.random() < 0.1 else []) + ["build"]
        tot = sum(x[2] for x in lists)
        for _ in range(rng.choice([1, 2])):
            s = ["search %s" % k for k in kws * 2 + ["unknown", "kw99"]]
            rng.shuffle(s)
            ops += ["open"] + s
        p.update(n=int(tot * rng.choice([0, 0.3, 1, 1, 1.5])), tmax=int(rng.choice([0, 0, 2, 6]) * len(kws) + tot * rng.choice([0, 0, 0.2, 1])), json=int(js))
        eps.append(Episode(ops, p, "random"))
    # more than 2^8 rows under one keyword, more than 2^8 keywords
    for i in range(ctx.q(4, 12)):
        back = ["cuckoo", "rocks", "rcuckoo", "cuckoo"][i % 4]
        n = blk[128] * rng.choice([256, 257, 300, 400]) + rng.choice([0, 1, 9])
        eps.append(Episode(["put a 0 3", "put k 10 %d" % n, "put b %d 7" % (n + 20), "build", "open", "search k", "search a", "search b",
                            "search k"], {"page": 128, "back": back, "seed": i, "depth": 200, "n": n + 40, "tmax": 40, "json": 0}, "long list"))
        kws = ["kw%d" % k for k in range(rng.choice([300, 600]))]
        ops = ["put %s %d %d" % (k, 11 * j, j % 12) for j, k in enumerate(kws)]
        eps.append(Episode(ops + ["build", "open"] + ["search %s" % k for k in kws],
                           {"page": 128, "back": back, "seed": i, "depth": 200, "n": 12 * len(kws), "tmax": 12 * len(kws), "json": 0},
                           "many keywords"))
    ctx.execute(exe, eps, jobs=8, timeout=200, max_crash=3)
    ctx.validate("KwIndexTrace", eps, CONST)
    ctx.assumptions.append("the PRF, the hash function and the key handling are deterministic collision-free stand-ins; "
                           "ChaCha20 is real; keywords are inserted once each")
