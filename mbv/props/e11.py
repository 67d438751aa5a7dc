"""E11: what the dynamic schemes acknowledge is stored, also when the disk fails."""
from ..core import Episode
from . import dyn
from .s12 import fault

MC = "SPECIFICATION Spec\nINVARIANTS Survives Fresh\nCONSTANTS Keys = {%s}\nMaxIns = %d\nIgnoreStore = %s\nIgnoreCount = %s\nCountBack = %s\n"


def history(rng, sch):
    how = {"sophos": lambda: dyn.sophos_how(rng, 4) if rng.random() < 0.3 else "seq",
           "diana": lambda: dyn.diana_how(rng, 0) if rng.random() < 0.3 else "seq 0 0",
           "janus": lambda: dyn.janus_how(rng)}[sch]
    kws = dyn.keywords(rng, rng.choice([1, 2, 3]))
    ops, nxt = [], 0
    for ph in range(rng.choice([1, 2, 2, 3, 4])):
        ops.append("open")
        if ph > 0 and rng.random() < 0.12:
            ops += [fault(rng, "armopen", int(2 ** rng.uniform(0, 7))), "heal"]
        if rng.random() < 0.5:
            ops += ["search %s %s" % (k, how()) for k in kws if rng.random() < 0.7]
        n = rng.choice([1, 3, 8, 20])
        left = rng.choice([1, 2, 4])      # insertions after the first fault
        at = rng.randrange(n)
        for i in range(n):
            if i == at:
                ops.append(fault(rng))
                if rng.random() < 0.2:
                    ops.append("arm %d %d" % (rng.choice([1, 2, 3]), rng.randrange(3)))
            if i >= at:
                if left == 0:
                    break
                left -= 1
            k = rng.choice(kws)
            x = rng.random()
            if x < 0.2 and (sch != "janus" or i < at or rng.random() < 0.3):
                ops.append("search %s %s" % (k, how()))
            elif sch == "janus" and x < 0.5 and (i < at or rng.random() < 0.2):
                ops.append("rem %s %d" % (k, rng.randrange(max(nxt, 1)) + 1))
            elif sch != "janus" and rng.random() < 0.2:
                m = rng.choice([1, 2, 3, 6])
                ops.append("bulk " + " ".join("%s %d" % (rng.choice(kws), nxt + 1 + j) for j in range(m)))
                nxt += m
            else:
                nxt += 1
                ops.append("ins %s %d" % (k, nxt))
            if i >= at and rng.random() < 0.3:
                ops.append("heal")
        ops.append("heal")
        if rng.random() < 0.5:
            ops += ["search %s %s" % (k, how()) for k in kws]
        ops.append(rng.choice(["kill", "close", "close"]))
    ops.append("open")
    for k in kws:
        ops += ["search %s %s" % (k, how()), "ins %s %d" % (k, nxt + 1), "search %s %s" % (k, how())]
        nxt += 1
    ops += [rng.choice(["kill", "close"]), "open"] + ["search %s %s" % (k, how()) for k in kws] + ["close"]
    return ops


def check(ctx):
    F = ("FALSE",) * 3
    ctx.models_parallel([(("FaultIndex", MC % (('"a", "b"', ctx.q(4, 5)) + F), "two keywords"), {}),
                         (("FaultIndex", MC % (('"a"', ctx.q(6, 8)) + F), "one keyword"), {})])
    for v, t in ((("TRUE", "FALSE", "FALSE"), "refused stores acknowledged"), (("FALSE", "TRUE", "FALSE"), "counter not advanced"),
                 (("FALSE", "FALSE", "TRUE"), "position of a refused store used again")):
        ctx.refute("FaultIndex", MC % (('"a"', 4) + v), t)
    exe = ctx.build("dyncrash.cpp", dyn.LIBS, standin=True, ldflags=["-rdynamic"])
    rng = ctx.rng
    eps, jan = [], []
    for i in range(ctx.q(180, 1800)):
        sch = ["sophos", "diana", "janus"][i % 3]
        (jan if sch == "janus" else eps).append(Episode(history(rng, sch), {"scheme": sch}, "random failing writes"))
    ctx.execute(exe, eps + jan, jobs=8, timeout=300, max_crash=3)

    def mutate(e):
        if e["ev"] != "search" or not e["r"] or e.get("hasvec"):
            return None
        return dict(e, r=e["r"][1:])
    ctx.validate("FaultIndexTrace", eps, dyn.CONST % "TRUE", mutate=mutate)
    ctx.validate("FaultEpochTrace", jan, dyn.ECONST, mutate=lambda e: dict(e, v=e["v"] + 1) if e["ev"] == "ins" else None)
    ctx.extra["updates_refused"] = sum(1 for ep in eps + jan for e in ep.events if e["ev"] == "failed")
    ctx.assumptions += [dyn.CRYPTO, "a failing call writes nothing, a part, or all of its data and returns ENOSPC or EIO",
                        "nothing is claimed about a Janus keyword whose removal or search was refused"]
