"""E03: concurrent insertion requests on one client."""
from ..core import Episode
from . import dyn


def check(ctx):
    cfg = ("SPECIFICATION Spec\nINVARIANTS Distinct InOrder AllFound\nCONSTANTS Threads = {%s}\nKeys = {\"a\", \"b\"}\n"
           "Bulk = %d\nMode = \"%s\"\n")
    ctx.models_parallel([(("ConcInsert", cfg % ("1, 2, 3" if ctx.tier == "quick" else "1, 2, 3, 4", 1, "atomic"), "single requests"), {}),
                         (("ConcInsert", cfg % ("1, 2", ctx.q(2, 3), "atomic"), "bulk requests"), {})])
    ctx.refute("ConcInsert", cfg % ("1, 2", 1, "split"), "a counter read and written in two steps")
    ctx.refute("ConcInsert", cfg % ("1, 2", 2, "batched"), "the counters of a bulk request written back at its end")
    exe, plain = dyn.build(ctx, shake=True), dyn.build(ctx)
    rng = ctx.rng
    eps, fast = [], []
    for i in range(ctx.q(200, 2400)):
        kws = rng.choice([["a"], ["a"], ["a", "b"], ["a", "b", "c", "@empty"]])
        sch = ["sophos", "diana"][i % 2]
        ops, nxt = [], 0
        for _ in range(rng.choice([1, 2, 3])):
            n = rng.choice([2, 4, 8, 30, 80])
            ops.append("cins %d%s " % (rng.choice([2, 2, 3, 4, 8, 16]), rng.choice(["", "", ":1", ":2", ":3", ":10"])) + " ".join("%s %d" % (rng.choice(kws), nxt + j) for j in range(n)))
            nxt += n
            if rng.random() < 0.3:
                ops.append("reopen both")
            elif rng.random() < 0.5:
                ops.append("ins %s %d" % (rng.choice(kws), nxt))
                nxt += 1
            if rng.random() < 0.4:
                ops.append("search %s seq 0 0" % rng.choice(kws))
        ops += ["search %s seq 0 0" % k for k in kws]
        (fast if i % 3 == 0 else eps).append(Episode(ops, {"scheme": sch, "hw": 4, "seed": i, "shake": rng.choice([3, 8, 30])},
                                                     "random interleaving"))
    ctx.execute(exe, eps, jobs=8, timeout=300, max_crash=3)
    # the first calls a process makes are concurrent ones
    first = []
    for i in range(ctx.q(40, 300)):
        ops = ["cins %d " % rng.choice([4, 8]) + " ".join("a %d" % j for j in range(16)), "search a seq 0 0"]
        first.append(Episode(ops, {"scheme": ["sophos", "diana"][i % 2], "hw": 4, "seed": i, "shake": rng.choice([0, 5, 20]), "fresh": 1}, "first calls"))
    ctx.execute(exe, first, jobs=8, timeout=300, max_crash=3)
    ctx.execute(plain, fast, jobs=2, timeout=300, max_crash=3)
    # the position of a document is only known once inserted concurrently, so the searches are compared as multisets
    ctx.validate("DynTrace", eps + fast + first, dyn.CONST % "TRUE")
    ctx.assumptions.append(dyn.CRYPTO)
