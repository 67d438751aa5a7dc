"""S12: a store update that reports success took effect, also when the disk fails."""
from ..core import Episode
from .s10 import CONST, gets, phase_ops

LOG = "SPECIFICATION Spec\nINVARIANTS Distinct There\nCONSTANTS MaxOps = %d\nIgnore = %s\nReset = %s\nKeepGoing = %s\n"


def fault(rng, word="arm", at=None):
    return "%s %d %d %d" % (word, at or rng.choice([1, 1, 1, 2, 3, 5, 9]), rng.choice([10, 11, 12]), rng.choice([1, 1, 2, 3, 1000000]))


def check(ctx):
    ctx.model("FaultLog", LOG % (ctx.q(6, 9), "FALSE", "FALSE", "FALSE"), "a counter whose reads and log writes fail")
    for v, t in ((("TRUE", "FALSE", "FALSE"), "failed writes ignored"), (("FALSE", "TRUE", "FALSE"), "failed reads taken for absence"),
                 (("FALSE", "FALSE", "TRUE"), "updates appended behind a torn record")):
        ctx.refute("FaultLog", LOG % ((4,) + v), t)
    exe = ctx.build("durable.cpp", ["rocksdb", "utils", "logger", "sched", "tpaio", "aio"], ldflags=["-rdynamic"])
    rng = ctx.rng
    eps = []
    for kind in ("map", "counter", "list"):
        for i in range(ctx.q(70, 900)):
            nk, c, ops = rng.choice([1, 2, 4]), [0], []
            for _ in range(rng.randrange(1, 4)):
                ops.append("open")
                x = rng.random()
                if x < 0.15:
                    ops.append(fault(rng, "armopen", int(2 ** rng.uniform(0, 7))))
                ops += gets(kind, nk) if rng.random() < 0.6 else []
                n = rng.randrange(1, 25)
                body = phase_ops(rng, kind, n, nk, c)
                body.insert(rng.randrange(len(body)), fault(rng))
                if rng.random() < 0.6:
                    body.insert(rng.randrange(len(body)), "heal")
                if rng.random() < 0.2:
                    body.insert(rng.randrange(len(body)), "arm %d %d" % (rng.choice([1, 2, 3]), rng.randrange(3)))
                ops += body + gets(kind, nk) + rng.choice([["heal"], []]) + [rng.choice(["kill", "close", "close"])]
            ops += ["open"] + gets(kind, nk) + phase_ops(rng, kind, 4, nk, c) + gets(kind, nk) + ["kill", "open"] + gets(kind, nk) + ["close"]
            eps.append(Episode(ops, {"kind": kind}, "random failing writes"))
    for i in range(ctx.q(25, 200)):
        ops = ["open"] + ["gai k%d" % rng.randrange(3) for _ in range(rng.randrange(1, 12))] + ["flush", rng.choice(["close", "kill"])]
        ops += ["open", "scratch %d" % rng.randrange(1, 12)] + rng.choice([[], gets("counter", 3)])
        ops += [rng.choice(["gai k%d", "inc k%d", "inc k%d 7"]) % rng.randrange(3) for _ in range(rng.randrange(1, 6))] + ["close"]
        eps.append(Episode(ops, {"kind": "counter"}, "damaged table file"))
    for i in range(ctx.q(60, 600)):
        sched = rng.choice(["none", "tp", "aio"])
        n = rng.randrange(1, 12)
        ops = ["push %d" % ((i * 13 + j) % 400) for j in range(n)]
        for _ in range(rng.choice([1, 1, 2])):
            ops.insert(rng.randrange(len(ops)), fault(rng, at=rng.choice([1, 1, 2])))
        ops = ["open"] + ops + ["heal", "push %d" % (390 + i % 10), "commit", "read", rng.choice(["kill", "close"]), "open", "read", "close"]
        eps.append(Episode(ops, {"kind": "vector", "sched": sched, "direct": rng.randrange(2)}, "vector"))
    ctx.execute(exe, eps, jobs=8)
    ctx.extra["updates_reported_as_failed"] = sum(1 for e in eps for o in e.events if o["ev"] == "end" and not o["ok"])
    ctx.validate("FaultTrace", eps, CONST, mutate=lambda e: dict(e, r=e["r"] + 100 if isinstance(e["r"], int) else e["r"] + "~")
                 if e["ev"] == "get" else None)
    ctx.assumptions += ["a failing call writes nothing, a part, or all of its data and returns ENOSPC or EIO",
                        "a read that fails cannot be told from an absent key by the get functions (their interface has no other answer)",
                        "failures of the asynchronous writes of a vector are not reported by its interface and are not part of the property"]
