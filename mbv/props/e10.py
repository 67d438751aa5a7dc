"""E10: searches and insertions at the same time."""
from ..core import Episode
from . import dyn

MC = ("SPECIFICATION Spec\nINVARIANTS RegularResults Announce AllThere\nCONSTANTS Ins <- MIns\nSrch <- MSrch\nOneSlot = %s\nAckEarly = %s\n")


def check(ctx):
    ctx.model("ConcSearch", MC % ("FALSE", "FALSE"), "three insertions and two searches, all interleavings")
    ctx.refute("ConcSearch", MC % ("TRUE", "FALSE"), "one request shared by all searches")
    ctx.refute("ConcSearch", MC % ("FALSE", "TRUE"), "insertions acknowledged before they are stored")
    exe, plain = dyn.build(ctx, shake=True), dyn.build(ctx)
    rng = ctx.rng
    eps, fast = [], []
    for i in range(ctx.q(100, 1600)):
        sch = ["sophos", "diana"][i % 2]
        hw = rng.choice([2, 4])
        kws = dyn.keywords(rng, rng.choice([1, 1, 2, 3]))
        kws = [k for k in kws if "," not in k]
        nxt, ops = [0], []

        def how():
            h = dyn.sophos_how(rng, hw) if sch == "sophos" else rng.choice([dyn.diana_how(rng, 0), "seq 0 0", "par %d 0" % rng.choice([2, 3])])
            if sch == "diana" and rng.random() < 0.5:
                h = rng.choice(["seq 0 0", "par 2 0", "partl 3 0", "parvec 2 0 0"])
            return h

        def doc():
            nxt[0] += 1
            return nxt[0]
        for _ in range(rng.choice([1, 2, 3])):
            for _ in range(rng.choice([0, 3, 20, 60])):
                ops.append("ins %s %d" % (rng.choice(kws), doc()))
            T = rng.choice([2, 2, 3, 4, 8])
            p = rng.choice([0.1, 0.5, 0.9, 1.0])
            items = []
            for _ in range(T * rng.choice([1, 3, 6])):
                k = rng.choice(kws)
                items.append("i,%s,%d" % (k, doc()) if rng.random() > p else "s,%s,%s" % (k, how().replace(" ", ",")))
            ops.append("conc %d " % T + " ".join(items))
            if rng.random() < 0.3:
                ops.append("reopen %s" % rng.choice(["both", "server", "client"]))
            ops += ["search %s %s" % (k, how()) for k in kws if rng.random() < 0.5]
        ops += ["search %s seq 0 0" % k for k in kws]
        (fast if i % 3 == 0 else eps).append(Episode(ops, {"scheme": sch, "hw": hw, "seed": i, "shake": rng.choice([5, 20, 100])},
                                                     "random concurrent calls"))
    ctx.execute(exe, eps, jobs=8, timeout=300, max_crash=3)
    # the first calls a process makes are concurrent ones
    first = []
    for i in range(ctx.q(40, 300)):
        T = rng.choice([4, 8])
        ops = ["conc %d " % T + " ".join(rng.choice(["i,a,%d" % j, "i,a,%d" % j, "s,a,seq,0,0", "s,b,seq,0,0"]) for j in range(2 * T)), "search a seq 0 0"]
        first.append(Episode(ops, {"scheme": ["sophos", "diana"][i % 2], "hw": 4, "seed": i, "shake": rng.choice([0, 5, 20]), "fresh": 1}, "first calls"))
    ctx.execute(exe, first, jobs=8, timeout=300, max_crash=3)
    ctx.execute(plain, fast, jobs=2, timeout=300, max_crash=3)

    def mutate(e):
        if e["ev"] not in ("send", "search") or not e["r"]:
            return None
        return dict(e, r=e["r"] + [99999], vec=e.get("vec", []) + [99999])
    ctx.validate("ConcTrace", eps + fast + first, mutate=mutate)
    ctx.extra["concurrent_searches"] = sum(1 for e in eps + fast + first for o in e.events if o["ev"] == "send")
    ctx.assumptions += [dyn.CRYPTO, "updates reach the server one at a time (as its runner does); searches at any time, in any number",
                        "searches do not delete (a deleting search concurrent with others is not constrained)"]
