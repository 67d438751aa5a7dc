"""S10: acknowledged store updates survive a process kill at any point."""
from ..core import Episode

CONST = 'CONSTANT NoOp = NoOp\n'
LOG = ('SPECIFICATION Spec\nINVARIANT ViewIsMap\nPROPERTIES Refines%s\nCONSTANTS NoOp = NoOp\nKeys = {%s}\nVals = {1, 2}\n'
       'Counters = {%s}\nLogFirst = %s\nDropEarly = %s\nMaxOps = %d\n')


def phase_ops(rng, kind, n, nkeys, c):
    """n updates; every value put is new, so that an older value is recognised."""
    ops = []
    for _ in range(n):
        k = "k%d" % rng.randrange(nkeys)
        x = rng.random()
        if x < 0.1:
            ops.append("flush")
        elif x < 0.25:
            ops.append("get " + k)
        elif kind == "counter":
            ops.append(rng.choice(["gai %s", "gai %s", "gai %s", "inc %s", "inc %s 5", "put %s 40", "remove %s"]) % k)
        elif kind == "map":
            c[0] += 1
            ops.append(rng.choice(["put %s %d" % (k, c[0] % 400)] * 4 + ["remove %s" % k]))
        else:
            m = rng.choice([0, 1, 2, 5])
            c[0] += m
            ops.append("put %s %s" % (k, " ".join(str((c[0] - j) % 400) for j in range(m))))
    return ops


def gets(kind, nkeys):
    return ["get k%d" % k for k in range(nkeys)]


def check(ctx):
    ctx.model("DurableLog", LOG % ("", "k1, k2", "k2", "TRUE", "FALSE", ctx.q(3, 5)), "log, memory table, flush, kill, recovery")
    ctx.refute("DurableLog", LOG % ("", "k1, k2", "k2", "FALSE", "FALSE", 3), "updates acknowledged before they are logged")
    ctx.refute("DurableLog", LOG % ("", "k1, k2", "k2", "TRUE", "TRUE", 3), "log dropped before the table is installed")
    exe = ctx.build("durable.cpp", ["rocksdb", "utils", "logger", "sched", "tpaio", "aio"], ldflags=["-rdynamic"])
    rng = ctx.rng
    eps = []
    for kind in ("map", "counter", "list"):
        for h in ctx.generate("DurableGen", 'SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS NoOp = NoOp\nKeys = {"k0", "k1"}\n'
                              'Kind = "%s"\nDepth = %d\n' % (kind, ctx.q(6, 8)), simulate=ctx.q(150, 1500), depth=10,
                              limit=ctx.q(40, 400)):
            ops, c = ["open"], 0
            for o in h:
                if o[0] == "put":
                    c += 1
                    o = o + [str(c)] + ([str(c + 50)] if kind == "list" else [])
                elif o[0] == "inc":
                    o = ["gai", o[1]]
                elif o[0] == "remove" and kind == "list":
                    o = ["put", o[1]]
                ops.append(" ".join(o))
                if o[0] == "open":
                    ops += gets(kind, 2)
            if ops[-1] not in ("close", "kill"):
                ops.append("kill")
            ops += ["open"] + gets(kind, 2) + ["close"]
            eps.append(Episode(ops, {"kind": kind}, "TLC behaviour"))
        for i in range(ctx.q(90, 900)):
            nk, c, ops = rng.choice([1, 2, 4]), [0], []
            for _ in range(rng.randrange(1, 4)):
                ops.append("open")
                if ops.count("open") > 1:
                    ops += gets(kind, nk)
                body = phase_ops(rng, kind, rng.randrange(1, 25), nk, c)
                x = rng.random()
                if x < 0.15:
                    ops.append("armopen %d %d" % (int(2 ** rng.uniform(0, 8)), rng.randrange(3)))
                elif x < 0.9:
                    body.insert(rng.randrange(len(body)), "arm %d %d" % (rng.choice([1, 1, 1, 2, 2, 3, 6, 20]), rng.randrange(3)))
                ops += body
                ops.append(rng.choice(["kill", "kill", "close"]))
            ops += ["open"] + gets(kind, nk) + rng.choice([["kill"], ["close"], ["flush", "kill"]])
            ops += ["open"] + gets(kind, nk) + ["close"]
            eps.append(Episode(ops, {"kind": kind}, "random kill points"))
    for i in range(ctx.q(60, 600)):
        sched = rng.choice(["tp", "aio", "none"])
        ops = ["open"]
        for j in range(rng.choice([0, 1, 3, 20])):
            ops.append("%s %d" % ("push" if sched == "none" else rng.choice(["push", "apush"]), (i * 7 + j) % 400))
        n = len(ops) - 1
        if rng.random() < 0.5:
            ops.insert(1, "arm %d %d" % (rng.randrange(1, n + 4), rng.randrange(3)))
        ops += ["commit"] + rng.choice([["kill"], ["close"]])
        if n:
            ops += ["open", "read", rng.choice(["kill", "close"]), "open", "read", "close"]
        eps.append(Episode(ops, {"kind": "vector", "sched": sched, "direct": rng.randrange(2)}, "vector"))
    ctx.execute(exe, eps, jobs=8)
    ctx.extra["kills"] = sum(1 for e in eps for o in e.events if o["ev"] == "crash")
    ctx.extra["kills_during_an_update"] = sum(
        1 for e in eps for a, b in zip(e.events, e.events[1:]) if a["ev"] == "begin" and b["ev"] == "crash")
    ctx.extra["kills_while_opening"] = sum(1 for e in eps for o in e.events if o["ev"] == "opencrash")
    ctx.validate("DurableTrace", eps, CONST, mutate=lambda e: dict(e, r=e["r"] + 1 if isinstance(e["r"], int) else e["r"] + "~")
                 if e["ev"] == "get" else None)
    ctx.assumptions.append("the process is killed, the machine is not: what was written reaches the file system")
