"""T01: the Tethys store."""
from ..core import Episode
from .s04 import WRAP
from .t02 import MC as LAYOUT, ceil

CONST = "CONSTANTS Keys = {}\nVals = {}\nMaxLen = 0\n"
LIBS = ["utils", "logger", "aio", "sched", "tpaio", "graph", "alloc"]
POOL = ["-Wl,--wrap=pread", "-Wl,--wrap=_ZN3sse10abstractio26make_default_aio_schedulerEm"]
ASYNC = "SPECIFICATION Spec\nINVARIANTS Complete\nPROPERTIES Once\nCONSTANTS CountFirst = %s\n"


def lookups(rng, keys, absent):
    ops = ["get %d %d %d" % k for k in keys + absent] + ["part %d %d %d" % k for k in keys + absent]
    many = [rng.choice(keys + absent) for _ in range(rng.choice([1, 2, 12, 40]))]
    ops += ["aget " + " ".join("%d %d %d" % k for k in many), "aget " + " ".join("%d %d %d" % k for k in keys + absent)]
    return ops


def params(rng, i):
    page = rng.choice([128, 128, 512, 4096])
    size = rng.choice([8, 8, 8, 4, 12] + [24])
    return {"page": page, "size": size, "enc": rng.randrange(2), "seed": i, "delay": rng.choice([0, 40, 80]),
            "sched": rng.choice(["aio", "tp"]) if page == 4096 else "tp", "eps": rng.choice([5, 10, 50]),
            "direct": rng.randrange(2) if page == 4096 else 0}


def max_list(p):
    c = ceil(8, p["size"]) + ceil(16, p["size"])
    return p["page"] // p["size"] - 2 * c


def check(ctx):
    ctx.models_parallel([
        (("BucketLayout", LAYOUT % ("k1, k2", ctx.q(7, 9), 2, 3, "FALSE"), "two lists in two buckets"), {}),
        (("KwIndex", "SPECIFICATION Spec\nPROPERTIES Stable\nCONSTANTS Keys = {k1, k2, k3}\nVals = {v1, v2}\nMaxLen = 2\n",
          "the index"), {}),
        (("AsyncPair", ASYNC % "FALSE", "one asynchronous lookup"), {})])
    ctx.refute("AsyncPair", ASYNC % "TRUE", "the bucket is counted before it is stored")
    exe = ctx.build("tethys.cpp", LIBS, standin=True, ldflags=WRAP + POOL, opt="-O0", flags=["-finstrument-functions"])
    rng = ctx.rng
    eps = []
    gen = ctx.generate("KwIndexGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS NKeys = %d\nLens = {0, 1, 3, 10}\n"
                       "Places = {0, 1, 2, 3}\n" % 3, limit=ctx.q(250, 4096))
    for h in gen:
        keys, ops, first = [], [], 0
        for i, o in enumerate(h):
            k = (i, o["p"] // 2 + 40 * i, o["p"] % 2 + 60 * i)
            keys.append(k)
            ops.append("put %d %d %d %d %d" % (k + (first, o["n"])))
            first += o["n"]
        p = params(rng, len(eps))
        p.update(page=128, size=8, direct=0, sched="tp", max=rng.choice([1, 4, 30]))
        eps.append(Episode(ops + ["build", "open"] + lookups(rng, keys, [(90, 3, 1)]), p, "TLC behaviour"))
    for i in range(ctx.q(160, 2500)):
        p = params(rng, i)
        ml = max_list(p)
        nk = rng.choice([1, 3, 10, 30] if p["page"] != 4096 else [1, 3, 10])
        spread = rng.choice([1, 3, 1000, 1 << 63])
        keys, ops, first, seen = [], [], 0, set()
        for k in range(nk):
            h = (rng.randrange(spread), rng.randrange(spread) + (k if spread < 4 else 0) * 60000)
            if h in seen:
                continue
            seen.add(h)
            keys.append((k,) + h)
            n = rng.choice([0, 0, 1, 2, rng.randrange(ml + 1), rng.randrange(ml + 1), ml, ml - 1])
            if rng.random() < 0.04:
                n = ml + rng.choice([1, 2, 7])
            ops.append("put %d %d %d %d %d" % (keys[-1] + (first, n)))
            first += n
        p["max"] = max(rng.choice([0, 1]), int(first * rng.choice([0, 0.3, 1, 1, 1.5])))
        absent = [(100 + j, rng.randrange(1 << 62), rng.randrange(1 << 62)) for j in range(3)]
        absent = [a for a in absent if a[1:] not in seen]
        ops += ["build"]
        for _ in range(rng.choice([1, 1, 2])):
            ops += ["open"] + lookups(rng, keys, absent)
        eps.append(Episode(ops, p, "random"))
    for i in range(ctx.q(3, 12)):
        p = params(rng, i)
        p.update(page=rng.choice([128, 128, 4096]), size=8)
        if p["page"] != 4096:
            p.update(direct=0, sched="tp")
        n = 300 if p["page"] == 4096 else rng.choice([300, 600])
        keys = list({(rng.getrandbits(64), rng.getrandbits(64)) for _ in range(n)})
        keys = [(j,) + k for j, k in enumerate(keys)]
        p["max"] = 8 * n
        eps.append(Episode(["put %d %d %d %d %d" % (k + (10 * k[0], k[0] % 8)) for k in keys] + ["build", "open"] +
                           ["get %d %d %d" % k for k in keys] + ["aget " + " ".join("%d %d %d" % k for k in keys)], p, "many keys"))
    ctx.execute(exe, eps, jobs=8, timeout=120, max_crash=3)
    ctx.validate("KwIndexTrace", eps, CONST)
    ctx.assumptions.append("the keys of a store are distinct, as the schemes above it guarantee")
    ctx.assumptions.append("reads of the table do not fail (failing reads are the subject of S03)")
