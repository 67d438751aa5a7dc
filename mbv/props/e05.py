"""E05: the Diana search variants."""
from ..core import Episode
from . import dyn
from .e02 import ST


def check(ctx):
    ctx.models_parallel([
        (("Strided", ST % (ctx.q(5, 6), ctx.q(4, 5), "range", "TRUE"), "matches split among workers by ranges"), {})])
    ctx.refute("Strided", ST % (2, 2, "range", "FALSE"), "returning before the workers are done")
    exe, plain = dyn.build(ctx, shake=True), dyn.build(ctx)
    rng = ctx.rng
    eps, slow = [], []
    for i in range(ctx.q(120, 1200)):
        n = rng.choice([0, 1, 1, 2, 3, 7, 8, 9, 16, 100, 254, 255, 256, 257, 300, rng.randrange(40), rng.randrange(600)])
        dup = rng.random() < 0.3
        ops = []
        if n:
            ops = ["bulk " + " ".join("k %d" % (rng.randrange(4) if dup else j) for j in range(n))]
        if i % 3 == 0:
            ops += ["ins other %d" % j for j in range(3)]
        hows = []
        for t in rng.sample([1, 2, 3, 5, 8, 9, 31, 64, 100, 128, 254, 255], 2) + [max(1, min(255, n + rng.choice([-1, 0, 1])))]:
            hows += ["par %d 0" % t, "parcb %d 0" % t, "partl %d 0" % t, "parvec %d 0 %d" % (t, rng.choice([0, 1, n, n + 3]))]
        hows += ["seq 0 0", "cb 0 0"]
        rng.shuffle(hows)
        for h in hows:
            ops.append(("search k " if rng.random() < 0.7 else "again ") + h)
            if i % 3 == 0 and rng.random() < 0.1:
                ops.append("search other " + h)
        ops.append("search k " + hows[0])
        if rng.random() < 0.4:
            ops.append("search k partl %d 1" % rng.choice([2, 9, 255]))
        if ops[0].startswith("again"):
            ops = ops[1:]
        (slow if i % 4 == 0 else eps).append(Episode(ops, {"scheme": "diana", "seed": i, "shake": rng.choice([8, 30, 200])},
                                                     "random variants"))
    slow.append(Episode(["many k 1 66000 700", "reopen server", "search k par 255 0", "again partl 7 0", "again parvec 8 0 0",
                         "search k parcb 3 0"], {"scheme": "diana", "seed": 1}, "list beyond 2^16"))
    ctx.execute(exe, eps, jobs=8, timeout=300, max_crash=3)
    ctx.execute(plain, slow, jobs=4, timeout=300, max_crash=3)
    ctx.validate("DynTrace", eps + slow, dyn.CONST % "TRUE")
    ctx.assumptions.append(dyn.CRYPTO)
