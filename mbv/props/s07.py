"""S07: the key-value store is a map."""
from ..core import Episode

CONST = 'CONSTANTS Keys = {}\nVals = {}\nTomb = "Tomb"\nNone = "None"\nMaxTables = 3\n'


def random_ops(rng, n, nkeys, nvals, flavours=("arr", "ptr", "str")):
    ops, is_open = [], True
    p_reopen = rng.choice([0.02, 0.1])
    p_flush = rng.choice([0.02, 0.15])
    for _ in range(n):
        x = rng.random()
        if x < p_reopen:
            ops += ["close", "open"]
        elif x < p_reopen + p_flush:
            ops.append("flush")
        elif x < 0.55:
            ops.append("put %d %d" % (rng.randrange(nkeys), rng.randrange(nvals)))
        elif x < 0.7:
            ops.append("remove %d %s" % (rng.randrange(nkeys), rng.choice(["arr", "ptr"])))
        else:
            ops.append("get %d %s" % (rng.randrange(nkeys), rng.choice(flavours)))
    ops += ["get %d %s" % (k, rng.choice(flavours)) for k in range(nkeys)]
    ops += ["close", "open"] + ["get %d %s" % (k, rng.choice(flavours)) for k in range(nkeys)]
    return ops


def check(ctx):
    ctx.model("KvMap", 'SPECIFICATION Spec\nINVARIANTS TypeOK ReadsAreMap\nPROPERTY Independent\nCONSTRAINT Bound\n'
              'CONSTANTS Keys = {k1, k2}\nVals = {v1, v2}\nTomb = Tomb\nNone = None\nMaxTables = %d\n' % ctx.q(2, 3),
              "layered store refines a map")
    exe = ctx.build("kv.cpp", ["rocksdb", "utils", "logger"])
    gen = ctx.generate("KvMapGen", 'SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS Keys = {"2", "3"}\nVals = {"4", "5"}\n'
                       'Tomb = "Tomb"\nNone = "None"\nMaxTables = 3\nDepth = %d\n' % ctx.q(4, 5), limit=ctx.q(300, 3000))
    eps = []
    for h in gen:
        ops = []
        for o in h:
            ops.append(" ".join([o["op"]] + [o[x] for x in ("k", "v") if x in o]))
            ops += ["get 2", "get 3"] if o["op"] not in ("close",) else []
        eps.append(Episode(ops, {"kind": "map", "shape": "abcd"[len(eps) % 4]}, "TLC behaviour"))
    for i in range(ctx.q(24, 300)):
        eps.append(Episode(random_ops(ctx.rng, ctx.q(120, 300), ctx.rng.choice([2, 5, 12]), 6),
                           {"kind": "map", "shape": "abcd"[i % 4]}, "random"))
    ctx.execute(exe, eps, jobs=8)
    ctx.validate("KvMapTrace", eps, CONST)
    ctx.assumptions.append("within one store all keys have one length and all values one length, as in every use in the code")
