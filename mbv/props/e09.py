"""E09: acknowledged insertions survive kills of the client and the server."""
from ..core import Episode
from . import dyn

MC = ("SPECIFICATION Spec\nINVARIANTS Survives NoReuse\nCONSTANTS Keys = {%s}\nMaxIns = %d\nMaxCrash = %d\nLazyCount = %s\n"
      "StoreFirst = %s\nLazyStore = %s\n")


def history(rng, sch):
    how = {"sophos": lambda: dyn.sophos_how(rng, 4) if rng.random() < 0.3 else "seq",
           "diana": lambda: dyn.diana_how(rng, 0) if rng.random() < 0.3 else "seq 0 0",
           "janus": lambda: dyn.janus_how(rng)}[sch]
    kws = dyn.keywords(rng, rng.choice([1, 2, 3]))
    ops, nxt = [], 0
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        ops.append("open")
        if rng.random() < 0.12:
            ops.append("armopen %d %d" % (int(2 ** rng.uniform(0, 8)), rng.randrange(3)))
            if sch == "janus":
                ops.append("disarm")     # only its opening: a search or removal that is cut is not covered
        if rng.random() < 0.6:
            ops += ["search %s %s" % (k, how()) for k in kws if rng.random() < 0.7]
        armed = False
        n = rng.choice([1, 3, 8, 30])
        at = rng.randrange(n)
        for i in range(n):
            if i == at and rng.random() < 0.85:
                # a Sophos or Diana insertion makes two write calls, the client's and the server's
                ops.append("arm %d %d" % (rng.choice([1, 1, 2, 2, 3, 4, 5, 9, 20]), rng.randrange(3)))
                armed = True
            k = rng.choice(kws)
            if rng.random() < 0.15 and not (armed and sch == "janus"):
                ops.append("search %s %s" % (k, how()))
            elif sch == "janus" and not armed and rng.random() < 0.35:
                ops.append("rem %s %d" % (k, rng.randrange(max(nxt, 1)) + 1))
            elif sch != "janus" and rng.random() < 0.2:
                m = rng.choice([1, 2, 3, 6])
                ops.append("bulk " + " ".join("%s %d" % (rng.choice(kws), nxt + 1 + j) for j in range(m)))
                nxt += m
            else:
                nxt += 1
                ops.append("ins %s %d" % (k, nxt))
        ops.append(rng.choice(["kill", "kill", "kill", "close"]))
    ops.append("open")
    for k in kws:
        ops += ["search %s %s" % (k, how()), "ins %s %d" % (k, nxt + 1), "search %s %s" % (k, how())]
        nxt += 1
    ops += [rng.choice(["kill", "close"]), "open"] + ["search %s %s" % (k, how()) for k in kws] + ["close"]
    return ops


def check(ctx):
    F = ("FALSE",) * 3
    ctx.models_parallel([(("DynCrash", MC % (('"a", "b"', ctx.q(4, 5), ctx.q(2, 4)) + F), "two keywords"), {}),
                         (("DynCrash", MC % (('"a"', ctx.q(5, 8), ctx.q(3, 5)) + F), "one keyword"), {})])
    for v, t in ((("TRUE", "FALSE", "FALSE"), "counters written back on close"), (("FALSE", "TRUE", "FALSE"), "documents stored before they are counted"),
                 (("FALSE", "FALSE", "TRUE"), "updates kept in the server's memory")):
        ctx.refute("DynCrash", MC % (('"a"', 4, 2) + v), t)
    exe = ctx.build("dyncrash.cpp", dyn.LIBS, standin=True, ldflags=["-rdynamic"])
    rng = ctx.rng
    eps, jan = [], []
    for i in range(ctx.q(150, 1800)):
        sch = ["sophos", "diana", "janus"][i % 3]
        (jan if sch == "janus" else eps).append(Episode(history(rng, sch), {"scheme": sch}, "random kill points"))
    ctx.execute(exe, eps + jan, jobs=8, timeout=300, max_crash=3)

    def mutate(e):
        if e["ev"] != "search" or not e["r"] or e.get("hasvec"):
            return None
        return dict(e, r=e["r"][1:])
    ctx.validate("DynCrashTrace", eps, dyn.CONST % "TRUE", mutate=mutate)
    ctx.validate("EpochCrashTrace", jan, dyn.ECONST)
    evs = [[e["ev"] for e in ep.events] for ep in eps + jan]
    ctx.extra["kills"] = sum(v.count("crash") + v.count("opencrash") for v in evs)
    ctx.extra["kills_inside_an_insertion"] = sum(1 for v in evs for a, b in zip(v, v[1:]) if b == "crash" and a in ("begin", "issued"))
    ctx.assumptions += [dyn.CRYPTO, "a kill loses the memory of the process, not what it wrote to files (no power failure)",
                        "client and server are killed together; a Janus removal or search that is interrupted is not covered"]
