"""R02: a service is set up once, and refuses what is out of order or malformed without harm."""
from ..core import Episode
from . import dyn, runner


def check(ctx):
    runner.models(ctx)
    t = ("TRUE",) * 4
    ctx.refute("Service", runner.MC % (('"a"', 1, 2) + t[:1] + ("FALSE",) + t[2:]), "a second setup is accepted")
    ctx.refute("Service", runner.MC % (('"a"', 1, 2) + t[:2] + ("FALSE",) + t[3:]), "a refused setup is done in part")
    exe, asan = runner.build(ctx), runner.build(ctx, asan=True)
    rng = ctx.rng
    eps = []
    for i in range(ctx.q(240, 3000)):
        sch = ["sophos", "diana"][i % 2]
        kws = dyn.keywords(rng, 2)
        nxt = [1]
        ops = ["async %d" % rng.choice([0, 1])]
        tok = lambda: rng.choice([0, 1, 15, 16, 17, 24, 32, 64, 300, 4096, 70000])
        ln = lambda good: rng.choice([good, good, 0, 1, good - 1, good + 1, 2 * good, 5000])

        def raw():
            x = rng.random()
            if x < 0.3:
                return "rins %d" % tok()
            if x < 0.5:
                return "rbulk " + " ".join(str(rng.choice([16, 16, tok()])) for _ in range(rng.choice([1, 2, 5, 30])))
            if x < 0.6:
                return "rreplay %d" % rng.choice([1, 2, 7, 100])
            if sch == "diana":
                return "rsearch %d %d %d" % (ln(32), rng.choice([0, 1, 16, 31, 32, 33, 80, 1000]), rng.choice([0, 1, 2, 50]))
            return "rsearch %d %d %d" % (ln(384), ln(32), rng.choice([0, 1, 2, 39, 41, 90]))
        setup = lambda: "rsetup %d" % rng.choice([0, 1, 31, 33, 64, 5000])
        up = False
        for _ in range(rng.choice([0, 1, 3])):      # before the user
            x = rng.random()
            if not up and x < 0.5:
                ops.append("start")
                up = True
            elif up and x < 0.2:
                ops.append("stop")
                up = False
            else:
                ops.append(rng.choice([raw, setup, setup])())
        if not up:
            ops += ["open"] if rng.random() < 0.3 else []  # nobody is there: no client
            ops.append("start")
            up = True
        if rng.random() < 0.15:                     # a stranger owns the server
            ops += ["rsetup 32", "open", "intrude", setup(), "rsetup 32", "stop", "start", "open", "rsetup 32", raw()]
            ops += ["open"]
        else:
            ops.append("open")
            for _ in range(rng.choice([4, 10])):
                x = rng.random()
                if x < 0.25:
                    m = rng.choice([1, 2, 6, 45])
                    ops.append("upd " + " ".join("%s %d" % (rng.choice(kws), nxt[0] + j) for j in range(m)))
                    nxt[0] += m
                elif x < 0.4:
                    ops.append("search " + rng.choice(kws))
                    ops += [raw()] if rng.random() < 0.5 else []
                elif x < 0.7:
                    ops.append(raw())
                elif x < 0.8:
                    ops.append(rng.choice([setup(), "rsetup 32"]))
                elif x < 0.85:
                    ops.append(rng.choice(["intrude", "intrude again", "intrude again"]))
                elif x < 0.9:
                    ops += ["stop"] + ([raw(), "intrude"] if rng.random() < 0.3 else []) + ["start"]
                elif x < 0.95:
                    ops += ["close", "open"]
                else:
                    ops += ["sopen", raw(), "slist %s %d" % (kws[0], nxt[0]), raw(), "sclose"]
                    nxt[0] += 1
            ops += ["search " + k for k in kws] + ["stop", "start"] + ["search " + k for k in kws]
        eps.append(Episode(ops, {"scheme": sch, "diana": int(sch == "diana"), "hw": rng.choice([2, 4]), "wide": int(rng.random() < 0.3), "seed": i,
                                 "port": i % 100}, "strangers"))
    rng.shuffle(eps)
    checked, plain = eps[len(eps) // 4:], eps[:len(eps) // 4]
    ctx.execute(asan, checked, jobs=8, timeout=400, max_crash=2)
    ctx.execute(exe, plain, jobs=8, timeout=400, max_crash=2)

    def forged(e):
        if e["ev"] in ("raw", "rawsetup") and not e["ok"]:
            return dict(e, ok=True)
    ctx.validate("ServiceTrace", checked + plain, runner.CONST, mutate=forged)
    ctx.assumptions += [dyn.CRYPTO, runner.GRPC]
