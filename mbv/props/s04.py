"""S04: the Linux-AIO scheduler completes every accepted request exactly once."""
from ..core import Episode

WRAP = ["-Wl,--wrap=io_setup", "-Wl,--wrap=io_submit", "-Wl,--wrap=io_getevents", "-Wl,--wrap=io_destroy"]
CONST = "CONSTANTS Plan = {}\nCapacity = 0\nTimedRetry = TRUE\n"
MC = ("SPECIFICATION Spec\nINVARIANTS AtMostOnce OnlyAccepted Conservation WaitMeansDone\n"
      "PROPERTIES SubmitReturns WaitReturns\nCONSTANTS Plan <- MCPlan\nCapacity = 1\n")


def models(ctx):
    ctx.model("MCAio", MC + "TimedRetry = TRUE\nSize = %d\n" % ctx.q(0, 2),
              "submitters, kernel and notifying thread: every call returns, every callback runs once")
    ctx.refute("MCAio", MC + "TimedRetry = FALSE\nSize = 0\n", "a sleeping submitter that is only woken by a notification")


def check(ctx):
    models(ctx)
    exe = ctx.build("aio.cpp", ["utils", "logger", "aio", "sched", "tpaio"], ldflags=WRAP)
    eps = []
    for depth, num in ((6, 150), (14, 250), (30, 120)):
        gen = ctx.generate("AioGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS Plan = {}\nCapacity = 0\n"
                           "TimedRetry = TRUE\nDepth = %d\n" % depth,
                           simulate=ctx.q(num, num * 12), depth=depth * 4, limit=ctx.q(num, num * 12))
        for h in gen:
            eps.append(Episode([" ".join(o) for o in h], {"mode": "script", "nr": 8, "seed": len(eps),
                                                          "nowait": int(len(eps) % 5 == 0), "late": int(len(eps) % 7 == 1)},
                               "TLC schedule"))
    rng = ctx.rng
    for i in range(ctx.q(120, 1500)):
        ops = []
        for c in range(1, rng.randrange(2, 25)):
            kind = rng.choice(["r", "w", "R", "R"])
            n = 1 if kind != "R" else rng.choice([0, 1, 2, 4, 9])
            o = "submit %d %s %d" % (c, kind, n)
            if n and rng.random() < 0.2:
                o += " " + " ".join(map(str, sorted(set(rng.randrange(n) for _ in range(rng.randrange(1, 3))))))
            ops.append(o)
        p = {"mode": rng.choice(["random", "random", "random", "real", "auto"]), "nr": rng.choice([1, 2, 8, 128]), "seed": i,
             "again": rng.choice([0, 30, 80]), "err": rng.choice([0, 0, 10]), "partial": rng.choice([0, 40, 90]),
             "short": rng.choice([0, 20]), "intr": rng.choice([0, 20, 60]), "delay": rng.choice([0, 50, 90]),
             "nowait": rng.choice([0, 0, 1]), "late": rng.choice([0, 0, 0, 1])}
        eps.append(Episode(ops, p, "random schedule"))
    ctx.execute(exe, eps, jobs=8)

    def mutate(e):
        o = dict(e)
        if e["ev"] == "cb":
            o["res"] = e["res"] + 1
        elif e["ev"] == "submitret":
            o["ret"] = e["ret"] + 1
        else:
            return None
        return o
    ctx.validate("AioTrace", eps, CONST, mutate=mutate)
    ctx.extra["scheduling_steps"] = sum(len(e.ops) for e in eps)
