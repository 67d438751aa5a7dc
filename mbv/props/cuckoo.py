"""C02, C03: lookups in the cuckoo table on disk and in Oceanus."""
from ..core import Episode
from .s04 import WRAP
from .t01 import ASYNC, CONST, POOL

LIBS = ["utils", "logger", "aio", "sched", "tpaio", "cuckoo"]
FF = (255, (1 << 64) - 1, (1 << 64) - 1)


def lookups(rng, keys, absent):
    allk = keys + absent
    ops = ["get %d %d %d" % k for k in allk]
    rng.shuffle(ops)
    if allk:
        for ks in (allk, [rng.choice(allk) for _ in range(rng.choice([1, 3, 20]))]):
            ops.append("aget " + " ".join("%d %d %d" % k for k in ks))
    return ops


def tail(rng, keys, absent):
    ops = ["move"] if rng.random() < 0.1 else []
    x = rng.random()
    if x < 0.2:
        ops.append("drop")
    else:
        ops.append("commit")
        if x < 0.5:
            ops += ["again", "put 250 3 4 99", "again"]
    for _ in range(rng.choice([1, 1, 2])):
        ops += ["open"] + lookups(rng, keys, absent)
    return ops


def run(ctx, kinds):
    ctx.models_parallel([
        (("CuckooDisk", "SPECIFICATION Spec\nINVARIANTS Found Absent\nCONSTANTS Keys = {k1, k2, k3, k4}\nNoKey = NoKey\n"
          "Size = 2\nDepth = %d\nKeep = TRUE\n" % d, "the table on disk, search depth %d" % d), {}) for d in (0, 1, 3)] + [
        (("KwIndex", "SPECIFICATION Spec\nPROPERTIES Stable\nCONSTANTS Keys = {k1, k2, k3}\nVals = {v1, v2}\nMaxLen = 1\n",
          "the index"), {}),
        (("AsyncPair", ASYNC % "FALSE", "one asynchronous lookup"), {})])
    ctx.refute("CuckooDisk", "SPECIFICATION Spec\nINVARIANTS Found\nCONSTANTS Keys = {k1, k2, k3}\nNoKey = NoKey\nSize = 2\nDepth = 2\n"
               "Keep = FALSE\n", "evicted entries are dropped")
    ctx.refute("AsyncPair", ASYNC % "TRUE", "a read is counted before its value is stored")
    exe = ctx.build("cuckoo.cpp", LIBS, standin=True, ldflags=WRAP + POOL, opt="-O0", flags=["-finstrument-functions"])
    rng = ctx.rng
    eps = []

    def params(i):
        kind = rng.choice(kinds)
        big = kind in ("oceanus", "big")
        return {"kind": kind, "eps": rng.choice([1, 10, 30, 100]), "depth": rng.choice([0, 1, 2, 200, 200]),
                "sched": rng.choice(["aio", "tp"]) if big else "tp", "seed": i, "delay": rng.choice([0, 40, 80]),
                "direct": rng.randrange(2) if big else 0, "stale": int(rng.random() < 0.2)}

    # every placement of up to four keys in a table of two slots a side
    for h in ctx.generate("KwIndexGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS NKeys = 4\nLens = {0, 1}\n"
                          "Places = {0, 1, 2, 3}\n", limit=ctx.q(200, 4096)):
        keys = [(i, o["p"] // 2 + 2 * i, o["p"] % 2 + 4 * i) for i, o in enumerate(h) if o["n"]]
        ops = ["put %d %d %d %d" % (k + (k[0],)) for k in keys]
        p = params(len(eps))
        p.update(max=2, eps=rng.choice([1, 0]))
        if p["kind"] == "big" or p["kind"] == "oceanus":
            p["kind"] = rng.choice(kinds)
        if p["kind"] not in ("big", "oceanus"):
            p.update(sched="tp", direct=0)
        absent = [(90, 8, 10), (91, 11, 13)] + [(92, k[1], k[2] + 1 + rng.randrange(9)) for k in keys] + [(93, k[1] + 1 + rng.randrange(9), k[2]) for k in keys]
        absent = [a for a in absent if a[1:] not in [k[1:] for k in keys]]
        eps.append(Episode(ops + tail(rng, keys, absent), p, "TLC behaviour"))
    for i in range(ctx.q(160, 3000)):
        p = params(i)
        n = rng.choice([0, 1, 2, 5, 20] + ([60] if p["kind"] not in ("oceanus", "big") else []))
        space = rng.choice([3, 1 << 20, 1 << 63, 1 << 64])
        keys, seen = [], set()
        for k in range(n):
            h = (k, rng.randrange(space), rng.randrange(space))
            if h[1:] in seen:
                continue
            seen.add(h[1:])
            keys.append(h)
        rng.shuffle(keys)
        p["max"] = max(0, rng.choice([len(keys), len(keys), len(keys) + 3, 3 * len(keys), len(keys) // 2, 1]))
        absent = [(200 + j, rng.randrange(space), rng.randrange(space)) for j in range(4)]
        # keys sharing one half with a stored one
        for k in rng.sample(keys, min(len(keys), rng.choice([1, 8]))):
            for j in range(3):
                absent += [(210, k[1], rng.randrange(1 << 63)), (211, rng.randrange(1 << 63), k[2])]
            # one bit away
            absent += [(213, k[1] ^ 1 << rng.randrange(64), k[2]), (214, k[1], k[2] ^ 1 << rng.randrange(64))]
        absent += [(212, k[2], k[1]) for k in keys[:1]]
        absent = [a for a in absent if a[1:] not in seen and a[1:] != FF[1:]]
        ops = ["put %d %d %d %d" % (k + (k[0],)) for k in keys]
        eps.append(Episode(ops + tail(rng, keys, absent), p, "random"))
    # more than 2^8 keys, one batch of asynchronous lookups larger than any queue
    for i in range(ctx.q(3, 12)):
        p = params(i)
        if p["kind"] in ("big", "oceanus"):
            p["depth"] = 200
        n = 300 if p["kind"] in ("big", "oceanus") else rng.choice([300, 700])
        keys = list({(rng.getrandbits(64), rng.getrandbits(64)) for _ in range(n)})
        keys = [(j + (j >= 255),) + k for j, k in enumerate(keys)]       # 255: the all-ones key
        p.update(max=n, eps=rng.choice([10, 30]), depth=200)
        eps.append(Episode(["put %d %d %d %d" % (k + (k[0],)) for k in keys] + ["commit", "open"] + ["get %d %d %d" % k for k in keys] +
                           ["aget " + " ".join("%d %d %d" % k for k in keys)], p, "many keys"))
    # the key whose bytes are all 0xFF, absent
    for kind in sorted(set(kinds)):
        p = {"kind": kind, "eps": 10, "depth": 200, "sched": "tp", "seed": 1, "delay": 0, "direct": 0, "stale": 0, "max": 3}
        eps.append(Episode(["put 1 5 6 1", "commit", "open", "get 1 5 6", "get 255 0 0"], p, "the all-ones key", tag="ff-key"))
        p = dict(p, max=30)
        eps.append(Episode(["put 1 5 6 1", "put 255 0 0 2", "commit", "open", "get 1 5 6", "get 255 0 0", "aget 255 0 0 1 5 6"],
                           p, "the all-ones key", tag="ff-key"))
    ctx.execute(exe, eps, jobs=8, timeout=120, max_crash=3)
    ctx.validate("KwIndexTrace", eps, CONST)
    ctx.assumptions.append("the keys inserted into one table are distinct")
    ctx.assumptions.append("reads of the table do not fail (failing reads are the subject of S03)")
