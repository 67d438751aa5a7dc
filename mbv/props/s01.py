"""S01: a committed vector returns exactly what was appended."""
from ..core import Episode
from . import awon


def readback(n):
    return ["get %d" % i for i in range(n)] + (["agets " + " ".join(str(i) for i in reversed(range(n)))] if n else [])


def check(ctx):
    awon.model(ctx)
    exe = ctx.build("awonvm.cpp", awon.LIBS)
    rng = ctx.rng
    eps = []
    cfgs = awon.configs()
    for h in awon.behaviours(ctx, ctx.q(5, 6), ctx.q(400, 5000)):
        ops, n = [], 0
        # keep the legal part of the behaviour: S02 covers illegal calls
        par = dict(cfgs[len(eps) % len(cfgs)])
        for o in h:
            if o["op"] == "setdirect" and par["type"] != "page":
                continue
            ops.append(" ".join([o["op"]] + ([o["v"]] if "v" in o else [])))
        ops += ["commit"] + readback(5) + ["close", "open"] + readback(5) + ["close", "open", "get 0", "close"]
        eps.append(Episode(ops, par, "TLC behaviour"))
    for i in range(ctx.q(40, 600)):
        par = dict(rng.choice(cfgs))
        n = rng.choice([0, 1, 2, 3, 7, 20, 60])
        mode = rng.choice(["sync", "async", "mixed", "mixed"])
        ops, k = ["open"], 0
        if rng.random() < 0.5:
            ops.append("reserve %d" % rng.choice([1, n, n + 3, 2 * n + 1]))
        for j in range(n):
            x = rng.random()
            if x < 0.06:
                ops.append("move")
            elif x < 0.12:
                ops.append("reserve %d" % rng.choice([j, j + 2, n + 5]))
            elif x < 0.16 and par["type"] == "page":
                ops.append("setdirect %d" % rng.randrange(2))
            a = mode == "async" or (mode == "mixed" and rng.random() < 0.5)
            ops.append("%s x%d" % ("apush" if a else "push", rng.randrange(500)))
        if rng.random() < 0.4:
            ops += ["commit"] + (["move"] if rng.random() < 0.5 else []) + readback(n)
        ops += ["close"]
        for _ in range(rng.choice([1, 2])):
            ops += ["open"] + (["move"] if rng.random() < 0.3 else [])
            if par["type"] == "page" and rng.random() < 0.3:
                ops.append("setdirect %d" % rng.randrange(2))
            ops += readback(n) + ["get %d" % n, "close"]
        eps.append(Episode(ops, par, "random"))
    # more than 2^8 and 2^16 elements
    for i, par in enumerate(cfgs):
        n = rng.choice([257, 300])
        ops = ["open"] + ["%s x%d" % ("apush" if rng.random() < 0.5 and i != 1 else "push", j % 500) for j in range(n)]
        eps.append(Episode(ops + ["commit"] + readback(n) + ["close", "open"] + readback(n) + ["get %d" % n, "close"], par, "many elements"))
    for par in (cfgs[0], cfgs[1]):
        n = 66000
        look = ["get %d" % j for j in (0, 1, 255, 256, 464, 65535, 65536, 65537, n - 1, n)] + ["agets " + " ".join(str(j) for j in range(n))]
        eps.append(Episode(["open", "push x3", "run %d" % (n - 3), "push x4", "push x5", "commit"] + look + ["close", "open"] + look + ["close"],
                           par, "many elements"))
    # files larger than 2 and 4 GB (the harness leaves holes in them): 4 MB elements
    for i, par in enumerate(ctx.q(1, 2) * [{"type": "big", "sched": "tp", "direct": 0}, {"type": "big", "sched": "aio", "direct": 1}]):
        n = 1030
        at = [0, 1, 510, 511, 512, 513, 1022, 1023, 1024, 1025, n - 1]
        ops = ["open"] + ["%s y%d" % ("apush" if par["sched"] == "tp" and (j % 97 == 5 or j in at) else "push", j)
                          for j in range(n)]
        look = ["get %d" % j for j in at] + ["aget %d" % j for j in at] + ["agets " + " ".join(map(str, at)), "get %d" % n]
        ops += ["commit"] + look + ["close", "open"] + look + ["close"]
        eps.insert(i, Episode(ops, par, "large file"))
    ctx.execute(exe, eps, jobs=8)
    ctx.validate("AwonvmTrace", eps, awon.CONST)
