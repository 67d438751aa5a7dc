"""S09: the persistent list store."""
from ..core import Episode

CONST = 'CONSTANTS Keys = {}\nElts = {}\nMaxLen = 0\n'
FL = ("arr", "ptr", "str")


def check(ctx):
    ctx.model("ListStore", 'SPECIFICATION Spec\nINVARIANTS TypeOK\nPROPERTIES Independent NeverForgotten\n'
              'CONSTANTS Keys = {k1, k2}\nElts = {e1, e2}\nMaxLen = %d\n' % ctx.q(2, 3), "list store")
    exe = ctx.build("kv.cpp", ["rocksdb", "utils", "logger"])
    gen = ctx.generate("ListStoreGen", 'SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS Keys = {"0", "3"}\nElts = {"4", "0"}\n'
                       'MaxLen = %d\nDepth = %d\n' % (ctx.q(1, 2), ctx.q(4, 4)), limit=ctx.q(300, 3000))
    rng = ctx.rng
    eps = []
    for h in gen:
        ops = []
        for o in h:
            ops.append(" ".join([o["op"]] + ([o["k"]] if "k" in o else []) + (list(o["v"]) if "v" in o else [])))
            ops += ["get 0 " + rng.choice(FL), "get 3 " + rng.choice(FL)] if o["op"] != "close" else []
        eps.append(Episode(ops, {"kind": "list"}, "TLC behaviour"))
    for i in range(ctx.q(24, 300)):
        nk = rng.choice([2, 4, 12])
        ops = []
        p = rng.choice([0.02, 0.1])
        for _ in range(ctx.q(100, 250)):
            x = rng.random()
            k = rng.randrange(nk)
            if x < p:
                ops += ["close", "open"]
            elif x < p + 0.05:
                ops.append("flush")
            elif x < 0.5:
                n = rng.choice([0, 1, 2, 3, 5, 17, 60])
                ops.append(" ".join(["put %d" % k] + [str(rng.randrange(12)) for _ in range(n)]))
            else:
                ops.append("get %d %s" % (k, rng.choice(FL)))
        ops += ["close", "open"] + ["get %d %s" % (k, f) for k in range(nk) for f in FL]
        eps.append(Episode(ops, {"kind": "list"}, "random"))
    for i in range(ctx.q(6, 20)):
        n = rng.choice([255, 256, 257, 300, 1000])
        ops = ["put 1 " + " ".join(str(rng.randrange(12)) for _ in range(n)), "get 1 arr", "put 2 3", "get 1 str", "close", "open", "get 1 ptr",
               "put 1 4", "get 1 arr", "get 2 arr"]
        eps.append(Episode(ops, {"kind": "list"}, "long list"))
    ops = ["put 1 " + " ".join(str(j % 12) for j in range(66000)), "get 1 arr", "close", "open", "get 1 ptr", "get 2 ptr"]
    eps.append(Episode(ops, {"kind": "list"}, "long list"))
    ctx.execute(exe, eps, jobs=8)
    ctx.validate("ListStoreTrace", eps, CONST)
    ctx.assumptions.append("the element serialiser used is a fixed-width one of the harness; Janus' own is covered by E07")
