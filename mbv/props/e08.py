"""E08: forward privacy."""
from ..core import Episode
from . import dyn

MC = ("SPECIFICATION Spec\nINVARIANT NoFuture\nPROPERTIES ForwardPrivate OneEach ExactLeak\nCONSTANTS Keys = {\"a\", \"b\"}\nMaxOps = %d\n"
      "Epochs = %s\nOneTooMany = %s\n")
CONST = "CONSTANTS Keys = {}\nMaxOps = 0\nEpochs = %s\nOneTooMany = FALSE\n"


def check(ctx):
    ctx.models_parallel([(("Forward", MC % (ctx.q(4, 6), e, "FALSE"), "locations of " + w), {})
                         for e, w in (("FALSE", "one family per keyword"), ("TRUE", "a family per epoch"))])
    ctx.refute("Forward", MC % (3, "FALSE", "TRUE"), "searches that cover one location too many")
    exe = dyn.build(ctx)
    rng = ctx.rng
    eps = {"sophos": [], "diana": [], "janus": []}
    C = 'CONSTANTS Keys = {"a", "b"}\nDocs = {1, 2}\nMaxIns = 8\nCanDelete = FALSE\nCoversAll = TRUE\n'
    D = ('CONSTANTS Keys = {"a", "b"}\nDocs = {1, 2}\nMaxOps = 100\nShortCount = FALSE\nKeepInsertions = FALSE\n')
    how = {"sophos": lambda d: "seq", "diana": lambda d: "seq 0 0", "janus": lambda d: "seq 0"}
    for depth, lim in ((6, ctx.q(40, 400)), (14, ctx.q(60, 800))):
        for s in eps:
            for h in dyn.gen(ctx, "EpochGen" if s == "janus" else "DynGen", D if s == "janus" else C, depth, lim, lim * 2):
                h = [o for o in h if o["op"] != "again"]
                eps[s].append(Episode(dyn.lower(h, how[s]), {"scheme": s, "hw": 2, "seed": len(eps[s]), "priv": 1}, "TLC behaviour"))
    for i in range(ctx.q(180, 1800)):
        s = ["sophos", "diana", "janus"][i % 3]
        kws = dyn.keywords(rng, rng.choice([1, 2, 4, 8]))
        ops = []
        for _ in range(rng.choice([10, 40, 120])):
            x = rng.random()
            k = rng.choice(kws)
            if x < 0.5:
                ops.append("ins %s %d" % (k, rng.randrange(20)))
            elif x < 0.6:
                if s == "janus":
                    ops.append("rem %s %d" % (k, rng.randrange(20)))
                elif s == "diana":
                    ops.append("bulk " + " ".join("%s %d" % (rng.choice(kws), rng.randrange(20)) for _ in range(4)))
                else:
                    ops.append("cins 2 %s %d %s %d" % (rng.choice(kws), rng.randrange(20), k, rng.randrange(20)))
            elif x < 0.85:
                ops.append("search %s %s" % (rng.choice(kws + ["unknown"]), how[s](0)))
            elif x < 0.92 and s != "janus":
                ops.append("request %s" % k)
            else:
                ops.append("reopen %s" % rng.choice(["both", "client", "server"]))
        eps[s].append(Episode(ops, {"scheme": s, "hw": 2, "seed": i, "priv": 1}, "random"))
    ctx.execute(exe, eps["sophos"] + eps["diana"] + eps["janus"], jobs=8, timeout=300, max_crash=3)

    def mutate(e):
        if e["ev"] != "ins" or e["t"] < 3:
            return None
        return dict(e, t=1)
    ctx.validate("ForwardTrace", eps["sophos"] + eps["diana"], CONST % "FALSE", mutate=mutate)
    ctx.validate("ForwardTrace", eps["janus"], CONST % "TRUE", mutate=mutate)
    ctx.assumptions += [dyn.CRYPTO, "what a search reveals is what the server computes from it: the tokens reached by walking the chain "
                        "forward (Sophos) or by evaluating the constrained key (Diana, Janus); no keyword is forgotten"]
