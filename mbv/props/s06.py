"""S06: the thread pool runs every accepted task exactly once, in order, and drains."""
from ..core import Episode

CONST = "CONSTANTS Tasks = {}\nW0 = 1\n"


def check(ctx):
    ctx.model("ThreadPool", "SPECIFICATION Spec\nINVARIANTS OncePlaced Bounded JoinedMeansDone\n"
              "PROPERTIES NoneAfterStop Fifo AllRun JoinReturns\nCONSTANTS Tasks = {t1, t2, t3%s}\nW0 = 2\n" % ctx.q("", ", t4"),
              "queue, workers, stopping")
    exe = ctx.build("threadpool.cpp", [])
    rng = ctx.rng
    eps = []
    for w in (1, 2, 3):
        for depth, num in ((4, 60), (9, 120), (18, 40)):
            for h in ctx.generate("ThreadPoolGen", "SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS Tasks = {}\nW0 = %d\nDepth = %d\n"
                                  % (w, depth), simulate=ctx.q(num, num * 12), depth=depth + 1, limit=ctx.q(num, num * 12)):
                kids = int(any(o == ["enq", "c"] for o in h))
                eps.append(Episode([" ".join(map(str, o)) for o in h],
                                   {"mode": "script", "w": w, "kids": kids, "seed": len(eps), "byjoin": len(eps) % 2}, "TLC schedule"))
    for i in range(ctx.q(100, 1500)):
        ops = ["enq %s %d" % (rng.choice("vvvxc"), rng.randrange(1, 6)) for _ in range(rng.randrange(1, rng.choice([4, 4, 7])))]
        eps.append(Episode(ops, {"mode": "random", "w": rng.choice([1, 1, 2, 3, 8]), "seed": i, "par": 1,
                                 "racejoin": rng.randrange(2), "byjoin": rng.randrange(2)}, "random, concurrent callers"))
    for i in range(ctx.q(30, 300)):
        ops = ["enq %s" % rng.choice("vvvx") for _ in range(rng.randrange(20, 150))]
        eps.append(Episode(ops, {"mode": "random", "w": rng.choice([1, 2, 5]), "seed": i, "par": 0, "byjoin": rng.randrange(2)},
                           "random, one caller"))
    for i in range(ctx.q(3, 12)):
        ops = ["enq %s" % rng.choice("vvvx") for _ in range(rng.choice([257, 300, 1100]))]
        eps.append(Episode(ops, {"mode": "random", "w": rng.choice([1, 2, 5]), "seed": i, "par": 0, "byjoin": i % 2}, "many tasks"))
    ctx.execute(exe, eps, jobs=8)

    def mutate(e):
        return dict(e, v="wrong") if e["ev"] == "future" else None
    ctx.validate("ThreadPoolTrace", eps, CONST, mutate=mutate)
