"""S03: asynchronous vector reads deliver the same values as synchronous ones, once."""
from ..core import Episode
from .s04 import WRAP

CONST = "CONSTANTS N = 0\nMaxReq = 0\n"


def params(rng, i):
    p = {"n": 4, "seed": i, "type": rng.choice(["page", "page", "two"]), "sched": rng.choice(["aio", "aio", "tp"]),
         "direct": rng.randrange(2), "again": rng.choice([0, 40]), "err": rng.choice([0, 0, 0, 15]),
         "partial": rng.choice([0, 50, 90]), "short": rng.choice([0, 0, 25]), "intr": rng.choice([0, 30]),
         "delay": rng.choice([0, 50, 90]), "par": rng.randrange(2), "nr": rng.choice([1, 8, 128])}
    if p["sched"] == "tp":
        p["err"] = 0
        if rng.random() < 0.3:
            p["type"], p["direct"] = "small", 0
    return p


def check(ctx):
    ctx.model("AsyncRead", "SPECIFICATION Spec\nINVARIANTS OnceEach ServedWhenGone NonNegative\nPROPERTIES NothingAfterGone\n"
              "CONSTANTS N = 2\nMaxReq = %d\n" % ctx.q(4, 6), "requests, reads under way and callbacks")
    exe = ctx.build("asyncget.cpp", ["utils", "logger", "aio", "sched", "tpaio"], ldflags=WRAP + ["-Wl,--wrap=pread"])
    rng = ctx.rng
    eps = []
    gen = ctx.generate("AsyncReadGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS Len0 = 4\nDepth = %d\n" % 2,
                       limit=ctx.q(250, 5000))
    gen += ctx.generate("AsyncReadGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS Len0 = 4\nDepth = 7\n",
                        simulate=ctx.q(150, 3000), depth=8, limit=ctx.q(150, 3000))
    for h in gen:
        eps.append(Episode([" ".join(map(str, o)) for o in h], params(rng, len(eps)), "TLC behaviour"))
    for i in range(ctx.q(80, 1200)):
        p = params(rng, i)
        p["n"] = n = rng.choice([1, 3, 12, 40])
        ops = []
        for _ in range(rng.randrange(1, 20)):
            x = rng.random()
            pick = lambda: rng.randrange(n) if rng.random() < 0.97 else n + rng.randrange(3)
            if x < 0.2:
                ops.append("aget %d" % pick())
            elif x < 0.3:
                ops.append("get %d" % pick())
            elif x < 0.4:
                ops.append("drain")
            else:
                ops.append("agets " + " ".join(str(pick()) for _ in range(rng.choice([1, 2, 5, 30]))))
        eps.append(Episode(ops, p, "random"))
    ctx.execute(exe, eps, jobs=8)

    def mutate(e):
        if e["ev"] != "cb":
            return None
        return dict(e, v=e["v"] + 1)
    ctx.validate("AsyncReadTrace", eps, CONST, mutate=mutate)
