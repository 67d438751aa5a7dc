"""S05: the thread-pool I/O scheduler completes every request exactly once."""
from ..core import Episode

WRAP = ["-Wl,--wrap=pread", "-Wl,--wrap=pwrite", "-Wl,--wrap=_ZNSt18condition_variable10notify_allEv",
        "-Wl,--wrap=_ZNSt18condition_variable10notify_oneEv"]
CONST = "CONSTANTS Plan = {}\nWorkers = 100000\nLockedWait = FALSE\n"
MC = ("SPECIFICATION Spec\nINVARIANTS AliveWhileUsed GoneMeansCalled CountRight Bounded\n"
      "PROPERTIES WaitOK WaitReturns Completes\nCONSTANTS Plan <- MCPlan\nWorkers = 2\n")


def check(ctx):
    ctx.model("MCPool", MC + "LockedWait = TRUE\nSize = %d\n" % ctx.q(0, 1), "schedulers sharing a pool of workers")
    ctx.refute("MCPool", MC + "LockedWait = FALSE\nSize = 0\n", "waiting without taking the lock")
    exe = ctx.build("poolio.cpp", ["utils", "logger", "aio", "sched", "tpaio"], ldflags=WRAP)
    eps = []
    for depth, num in ((5, 150), (10, 250), (20, 100)):
        for h in ctx.generate("PoolGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS Plan = {}\nWorkers = 50\n"
                              "LockedWait = TRUE\nDepth = %d\n" % depth, simulate=ctx.q(num, num * 12), depth=depth + 1,
                              limit=ctx.q(num, num * 12)):
            # ids of children shift the numbering: only leaf requests are scripted by number
            kids = any(o[0] == "submit" and o[3] == "1" for o in h)
            ops = [" ".join(o) for o in h if not (kids and o[0] == "perform")]
            eps.append(Episode(ops, {"mode": "random" if kids else "script", "seed": len(eps), "delay": 30,
                                     "slow": 1 if len(eps) % 4 == 0 else 0}, "TLC schedule"))
    rng = ctx.rng
    for i in range(ctx.q(120, 1500)):
        ops, live, nxt = [], [], 1
        big = rng.random() < 0.2
        for _ in range(rng.randrange(3, 150 if big else 30)):
            x = rng.random()
            if not live or x < 0.1:
                ops.append("new %d" % nxt)
                live.append(nxt)
                nxt += 1
            elif x < 0.85:
                ops.append("submit %d %s %d" % (rng.choice(live), rng.choice("rwR"), rng.random() < 0.15))
            elif x < 0.93:
                s = rng.choice(live)
                ops += ["wait %d now" % s, "waited %d" % s]
            else:
                s = rng.choice(live)
                live.remove(s)
                ops.append("destroy %d now" % s)
        eps.append(Episode(ops, {"mode": "random", "seed": i, "delay": rng.choice([0, 30, 90]), "fail": rng.choice([0, 15]),
                                 "slow": rng.choice([0, 0, 1])}, "random schedule"))
    ctx.execute(exe, eps, jobs=8)

    def mutate(e):
        if e["ev"] not in ("cb", "submitret"):
            return None
        o = dict(e)
        if e["ev"] == "cb":
            o["res"] = e["res"] + 1
        else:
            o["ret"] = e["ret"] - 1
        return o
    ctx.validate("PoolTrace", eps, CONST, mutate=mutate)
