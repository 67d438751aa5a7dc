"""R01: the services return over RPC exactly what was inserted."""
from ..core import Episode
from . import dyn, runner


def random_episode(rng, i, n, shake=0, conc=0.2):
    sch = ["sophos", "diana"][i % 2]
    wide = rng.random() < 0.4
    kws = dyn.keywords(rng, rng.choice([1, 2, 4]))
    js = [k for k in kws if k != "@empty" and not wide]
    nxt = [rng.choice([0, 1])]

    def pairs(m, only=None):
        l = []
        for _ in range(m):
            l.append("%s %d" % (only or rng.choice(kws), nxt[0]))
            nxt[0] += rng.choice([1, 1, 1, 0])
        return " ".join(l)
    ops, up, cli, sess = ["async %d" % rng.choice([0, 1]), "start", "open"], True, True, False
    for _ in range(n):
        x = rng.random()
        if not cli:
            ops.append("open")
            cli = True
        elif not up and rng.random() < 0.6:
            ops.append("start")
            up = True
        elif x < 0.3:
            ops.append("upd " + pairs(rng.choice([1, 1, 2, 5, 60])))
        elif x < 0.3 + conc and up:
            m = rng.choice([2, 8, 30])
            if len(kws) > 1 and rng.random() < 0.4:
                k = rng.choice(kws)
                o = rng.choice([j for j in kws if j != k])
                ops.append("mix %d %s %s" % (rng.choice([2, 4]), k, pairs(m, o)))
            else:
                ops.append("cupd %d %s" % (rng.choice([2, 3, 8]), pairs(m)))
        elif x < 0.56:
            ops.append("search " + rng.choice(kws))
        elif x < 0.6 and up:
            ops.append("csearch " + " ".join(rng.choice(kws) for _ in range(rng.choice([2, 4]))))
        elif x < 0.66 and up and not sess:
            ops.append("sopen")
            sess = True
        elif x < 0.72 and sess:
            ops.append("slist " + pairs(rng.choice([1, 2, 10, 40])))
        elif x < 0.8 and sess:
            ops.append("sclose")
            sess = False
        elif x < 0.84 and up and not sess and js:
            ops.append("load " + " ".join("%s:%s" % (k, ",".join(str(nxt[0] + j) for j in range(rng.choice([1, 2, 30])))) for k in rng.sample(js, rng.randrange(1, len(js) + 1))))
            nxt[0] += 30
        elif x < 0.86:
            ops.append("async %d" % rng.choice([0, 1]))
        elif x < 0.88 and not sess:
            ops.append("nosess %s %d" % (rng.choice(kws), nxt[0]) + rng.choice(["", " list"]))
        elif x < 0.9 and not sess:
            ops.append("noload")
        elif x < 0.94 and not sess and up:
            ops.append("stop")
            up = False
        elif x < 0.97 and not sess:
            ops.append("close")
            cli = False
        elif up:
            ops.append("intrude")
    if sess:
        ops.append("sclose")
    if not cli:
        ops.append("open")
    if not up:
        ops.append("start")
    ops += ["search " + k for k in kws] + ["async 0"] + ["search " + k for k in kws]
    return Episode(ops, {"scheme": sch, "diana": int(sch == "diana"), "hw": rng.choice([2, 4, 8]), "wide": int(wide), "seed": i, "shake": shake,
                         "builder": int(rng.random() < 0.3), "port": i % 100}, "random history")


def check(ctx):
    runner.models(ctx)
    t = ("TRUE",) * 4
    for bad, what in ((("FALSE",) + t[1:], "the end of a session does not wait for the server"), (t[:1] + ("FALSE",) + t[2:], "a second setup is accepted"),
                      (t[:2] + ("FALSE",) + t[3:], "a refused setup is done in part"), (t[:3] + ("FALSE",), "a position without a document reported as one")):
        ctx.refute("Service", runner.MC % (('"a"', 2, 1) + bad), what)
    exe, shk = runner.build(ctx), runner.build(ctx, shake=True)
    rng = ctx.rng
    eps = [random_episode(rng, i, rng.choice([6, 12, 25])) for i in range(ctx.q(240, 3000))]
    # long lists: the parallel searches of the services
    for i in range(ctx.q(8, 40)):
        n = rng.choice([39, 40, 41, 255, 256, 257, 1000])
        ops = ["start", "open", "sopen"] + ["slist " + " ".join("a %d" % (j + 1) for j in range(b, min(b + 50, n))) for b in range(0, n, 50)]
        ops += ["sclose", "search a", "async 0", "search a", "stop", "close", "start", "open", "search a", "async 1", "search a"]
        eps.append(Episode(ops, {"scheme": ["sophos", "diana"][i % 2], "diana": i % 2, "hw": 8, "seed": i}, "long list"))
    ctx.execute(exe, eps, jobs=8, timeout=300, max_crash=3)
    shaken = [random_episode(rng, i, rng.choice([6, 12]), rng.choice([3, 10, 30]), 0.45) for i in range(ctx.q(120, 1500))]
    ctx.execute(shk, shaken, jobs=8, timeout=300, max_crash=3)

    def forged(e):
        if e["ev"] == "search" and e["r"]:
            return dict(e, r=e["r"] + [999999])
    ctx.validate("ServiceTrace", eps + shaken, runner.CONST, mutate=forged)
    ctx.assumptions += [dyn.CRYPTO, runner.GRPC]
