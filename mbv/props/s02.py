"""S02: write-once; illegal and out-of-range calls are refused and change nothing."""
from ..core import Episode
from . import awon

CFG = awon.configs() + [{"type": "page", "sched": "none", "direct": 1}, {"type": "small", "sched": "none", "direct": 0},
                        {"type": "small", "sched": "aio", "direct": 0}, {"type": "u64", "sched": "default", "direct": 0}]


def probes(rng, n):
    """Reads around the bounds, alone and in batches."""
    idx = [0, n - 1, n, n + 1, n + rng.randrange(2, 9), 2 ** rng.choice([10, 31, 40, 62])]
    idx = [i for i in idx if i >= 0]
    ops = ["get %d" % i for i in rng.sample(idx, min(3, len(idx)))]
    ops += ["aget %d" % i for i in rng.sample(idx, min(2, len(idx)))]
    k = rng.choice([1, 2, 3, 5])
    b = [rng.randrange(0, max(1, n)) for _ in range(k)]
    if rng.random() < 0.6:
        b[rng.randrange(k)] = rng.choice([n, n, n + 1, n + 5])
    ops.append("agets " + " ".join(map(str, b)))
    rng.shuffle(ops)
    return ops


def writes(rng, par, reopenable):
    ops = ["push w%d" % rng.randrange(90)]
    ops.append("apush a%d" % rng.randrange(90))
    if par["type"] == "page":
        ops.append("push m%d mis" % rng.randrange(90))
    rng.shuffle(ops)
    return ops


def check(ctx):
    awon.model(ctx)
    exe = ctx.build("awonvm.cpp", awon.LIBS)
    rng = ctx.rng
    eps = []
    # every call (legal or not) after every short history of the specification
    for h in awon.behaviours(ctx, ctx.q(3, 4), ctx.q(500, 4000)):
        par = dict(CFG[len(eps) % len(CFG)])
        ops = []
        for o in h:
            if o["op"] == "setdirect" and par["type"] != "page":
                continue
            ops.append(" ".join([o["op"]] + ([o["v"]] if "v" in o else [])))
            if rng.random() < 0.4:
                ops += probes(rng, sum(1 for x in ops if "push" in x))
        ops += probes(rng, 2) + writes(rng, par, True) + ["commit"] + writes(rng, par, True) + ["reserve 9"]
        ops += ["get 0", "get 1", "get 2", "get 3", "get 4", "close", "open"] + writes(rng, par, True) + ["reserve 7"]
        ops += ["get 0", "get 1", "get 2", "get 3", "get 4", "get 5", "close"]
        eps.append(Episode(ops, par, "TLC behaviour with illegal calls"))
    for i in range(ctx.q(60, 800)):
        par = dict(rng.choice(CFG))
        ops, n, st = ["open"], 0, "build"
        for j in range(rng.randrange(4, ctx.q(25, 60))):
            x = rng.random()
            if x < 0.35:
                ops += [rng.choice(writes(rng, par, True))]
                n += 1
            elif x < 0.7:
                ops += [rng.choice(probes(rng, n))]
            elif x < 0.78:
                ops.append("move")
            elif x < 0.84:
                ops.append("reserve %d" % rng.choice([0, n, n + 2, 40]))
            elif x < 0.90:
                ops.append("commit")
            elif x < 0.95:
                ops += ["close", "open"]
            elif par["type"] == "page":
                ops.append("setdirect %d" % rng.randrange(2))
        ops += probes(rng, n) + ["commit"] + ["get %d" % k for k in range(n + 1)] + ["close"]
        eps.append(Episode(ops, par, "random with illegal calls"))
    ctx.execute(exe, eps, jobs=8)
    ctx.validate("AwonvmTrace", eps, awon.CONST)
