"""U03: a benchmark measures from its start to its first stop, and reports once."""
from ..core import Episode

MC = "SPECIFICATION Spec\nINVARIANT RecordsRight\nCONSTANTS LaterCount = TRUE\nBs = {%s}\nMaxNow = %d\nStopSticks = %s\n"


def check(ctx):
    ctx.model("MCBench", MC % (ctx.q("b1, b2", "b1, b2, b3"), ctx.q(3, 3), "TRUE"), "benchmarks, clock, targets")
    ctx.refute("MCBench", MC % ("b1", 3, "FALSE"), "destruction moves the end")
    exe = ctx.build("bench.cpp", ["logger"], ldflags=["-rdynamic"])
    rng = ctx.rng
    eps = []
    for i in range(ctx.q(120, 1200)):
        ops, live, nf, nb, logs = ["setfile"], [], 1, 0, []
        for _ in range(rng.choice([6, 15, 40])):
            x = rng.random()
            if x < 0.2 or not live:
                nb += 1
                b = "b%d" % nb
                live.append(b)
                ops.append("new %s %s" % (b, rng.choice("sp")))
            elif x < 0.4:
                ops.append("tick %d" % rng.choice([0, 1, 7, 1000, 100000]))
            elif x < 0.55:
                ops.append("stop " + rng.choice(live))
            elif x < 0.65:
                ops.append("stopc %s %d" % (rng.choice(live), rng.choice([0, 1, 2, 1000])))
            elif x < 0.72:
                ops.append("count %s %d" % (rng.choice(live), rng.choice([0, 1, 3, 77])))
            elif x < 0.85:
                b = rng.choice(live)
                live.remove(b)
                ops.append("destroy " + b)
            elif x < 0.89:
                ops.append("setfile")
                nf += 1
            elif x < 0.95:
                k = rng.choice(["null", "null", "l1", "l2"])
                if k != "null":
                    logs.append(k)
                ops.append("setlog " + k)
            else:
                ops.append("msg")
        for b in live:
            ops += ["tick 3", "destroy " + b]
        ops += ["setlog null", "msg", "setlog null", "setfile"]
        ops += ["read %d" % k for k in range(1, nf + 1)] + ["sink " + k for k in sorted(set(logs))]
        eps.append(Episode(ops, {}, "random"))
    # more records at once than the queue of the log holds
    for n, t in ctx.q([(20000, 4), (9000, 1)], [(20000, 4), (9000, 1), (100000, 8), (8192, 1), (8193, 2)]):
        eps.append(Episode(["setfile", "setfile", "burst %d %d" % (n, t), "setfile", "tally 2"], {}, "many at once"))
    ctx.execute(exe, eps, jobs=8)
    ctx.validate("BenchTrace", eps, "CONSTANT LaterCount = TRUE\n", mutate=lambda e: dict(e, r=[dict(e["r"][0], time=e["r"][0]["time"] + 1)] + e["r"][1:])
                 if e["ev"] == "read" and e["r"] else None)
    ctx.extra["records"] = sum(len(o["r"]) for e in eps for o in e.events if o["ev"] == "read")
    ctx.assumptions.append("messages and formats hold no braces or quotes of their own; log targets are not changed while another thread logs")
