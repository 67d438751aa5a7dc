"""U04: the random database generator."""
from ..core import Episode

MC = ('SPECIFICATION MCSpec\nINVARIANTS Capped InOrder Complete\nCONSTANTS T = %d\nN = %d\nNameOfR2 = "%s"\nJoin = %s\n'
      'Groups <- MGroups\nRand <- MRand\nPercent <- MPercent\n')
TR = "CONSTANTS Groups <- TGroups\nRand <- TRand\nPercent <- TPercent\n"


def mutate(ev):
    """Corrupts one keyword of a document (binding self-test)."""
    if ev.get("ev") != "doc" or not ev["r"]:
        return None
    return dict(ev, r=[dict(ev["r"][0], i=-1)] + ev["r"][1:])


def check(ctx):
    jobs = [(("MCGenDb", MC % (2, ctx.q(6, 9), "r2", "TRUE"), "two threads"), {}),
            (("MCGenDb", MC % (3, ctx.q(5, 7), "r2", "TRUE"), "three threads"), {})]
    ctx.models_parallel(jobs)
    ctx.refute("MCGenDb", MC % (1, 6, "r3", "TRUE"), "two random families under one name")
    ctx.refute("MCGenDb", MC % (2, 4, "r2", "FALSE"), "returns without waiting for the threads")
    exe = ctx.build("gendb.cpp", ["dbgen", "logger"], standin=True, ldflags=["-rdynamic"], flags=["-include", "string"])
    rng = ctx.rng
    eps = []
    for n in range(0, 25):
        eps.append(Episode(["gen %d %d %d" % (n, t, rng.choice([0, 30, 300])) for t in (1, 2, 3, 8, 13)], {}, "all small sizes"))
    for n, t in [(1000, 1), (1001, 3), (999, 8), (2000, 13), (1210, 2), (2600, 1), (2500, 8)]:
        eps.append(Episode(["gen %d %d %d" % (n, t, rng.choice([0, 20]))], {}, "sizes around the group sizes"))
    # large enough for a few random groups of 1000
    for n, t in ctx.q([(6000, 1), (5000, 2)], [(6000, 1), (9000, 2), (15000, 1), (16000, 4), (26000, 1), (26000, 8)]):
        eps.append(Episode(["gen %d %d 0" % (n, t)], {}, "random groups"))
    for _ in range(ctx.q(12, 120)):
        eps.append(Episode(["gen %d %d %d" % (rng.randrange(25, 700), rng.randrange(1, 17), rng.choice([0, 100]))
                            for _ in range(2)], {}, "random"))
    # the larger groups: only the sizes of the groups are recorded
    for n, t in ctx.q([(130000, 1), (30000, 2), (2345, 7)], [(130000, 1), (260000, 2), (400000, 3), (1300000, 1), (130000, 16), (2345, 7)]):
        eps.append(Episode(["big %d %d" % (n, t)], {}, "large groups"))
    ctx.execute(exe, eps, jobs=8, timeout=ctx.q(300, 1200))
    ctx.validate("GenDbTrace", eps, TR, mutate=mutate)
    ctx.assumptions.append("groups of 10^6 documents are completed by the thorough tier only")
