"""S08: persistent counters."""
from ..core import Episode

CONST = 'CONSTANTS Keys = {}\nMaxVal = 3\n'


def check(ctx):
    ctx.model("Counter", 'SPECIFICATION Spec\nINVARIANTS TypeOK NeverTwice\nPROPERTIES Independent OneStep\nCONSTRAINT Bound\n'
              'CONSTANTS Keys = {k1, k2}\nMaxVal = %d\n' % ctx.q(3, 5), "counters never hand out a value twice")
    exe = ctx.build("kv.cpp", ["rocksdb", "utils", "logger"])
    gen = ctx.generate("CounterGen", 'SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS Keys = {"0", "1"}\nMaxVal = 9\nDepth = %d\n'
                       % ctx.q(4, 5), limit=ctx.q(400, 4000))
    eps = []
    for h in gen:
        ops = []
        for o in h:
            ops.append(" ".join([o["op"]] + [str(o[x]) for x in ("k", "v") if x in o]))
            ops += ["get 0", "get 1"] if o["op"] != "close" else []
        eps.append(Episode(ops, {"kind": "counter"}, "TLC behaviour"))
    rng = ctx.rng
    for i in range(ctx.q(24, 300)):
        nk = rng.choice([2, 4, 12])
        ops = []
        p = rng.choice([0.02, 0.1])
        for _ in range(ctx.q(150, 300)):
            x = rng.random()
            k = rng.randrange(nk)
            if x < p:
                ops += ["close", "open"]
            elif x < p + 0.05:
                ops.append("flush")
            elif x < 0.45:
                ops.append("gai %d" % k)
            elif x < 0.6:
                ops.append("inc %d" % k if rng.random() < 0.5 else "inc %d %d" % (k, rng.randrange(100)))
            elif x < 0.7:
                ops.append("set %d %d" % (k, rng.choice([0, 1, 254, 255, 256, 65535, 65536, 16777215, 1000000000])))
            elif x < 0.77:
                ops.append("remove %d" % k)
            else:
                ops.append("get %d" % k)
        ops += ["close", "open"] + ["get %d" % k for k in range(nk)]
        eps.append(Episode(ops, {"kind": "counter"}, "random"))
    ctx.execute(exe, eps, jobs=8)
    ctx.validate("CounterTrace", eps, CONST)
    ctx.assumptions.append("counters stay below 2^31 (TLC integers); one caller at a time (E03 covers concurrent callers)")
