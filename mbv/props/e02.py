"""E02: the Sophos search variants."""
from ..core import Episode
from . import dyn

ST = "SPECIFICATION Spec\nINVARIANTS Once NoneTwice\nCONSTANTS MaxN = %d\nMaxT = %d\nSplit = \"%s\"\nJoinReporters = %s\n"


def check(ctx):
    ctx.model("Strided", ST % (ctx.q(4, 5), ctx.q(3, 4), "stride", "TRUE"), "matches split among workers by stride")
    ctx.refute("Strided", ST % (2, 2, "stride", "FALSE"), "returning before the reporters are done")
    exe, plain = dyn.build(ctx, shake=True), dyn.build(ctx)
    rng = ctx.rng
    eps, slow = [], []
    for i in range(ctx.q(110, 1200)):
        hw = rng.choice([1, 2, 3, 4, 8, 16, 60])
        top = 2 * hw
        n = rng.choice([0, 1, 1, 2, 3, top - 1, top, top + 1, rng.randrange(40), rng.randrange(40), rng.randrange(150)])
        if i % 8 == 0:
            n = rng.choice([254 + rng.randrange(5), 300, 511, 513, 600, 770])
        dup = rng.random() < 0.3
        ops = ["ins k %d" % (rng.randrange(4) if dup else j + 2 * rng.randrange(2) * 0) for j in range(n)]
        if i % 3 == 0:
            ops += ["ins other %d" % j for j in range(3)]
        hows = ["seq", "cb", "par %d" % rng.choice([1, 2, 7, 30]), "light 1", "light %d" % top, "lightcb %d" % top]
        hows += ["parcb 1 1 1", "parcb %d %d %d" % (top, rng.choice([1, 4, 12]), rng.choice([1, 4, 12]))]
        hows += [dyn.sophos_how(rng, hw) for _ in range(4)]
        rng.shuffle(hows)
        for h in hows:
            ops.append("search %s %s" % ("other" if i % 3 == 0 and rng.random() < 0.1 else "k", h))
        (slow if i % 4 == 0 else eps).append(Episode(ops, {"scheme": "sophos", "hw": hw, "seed": i, "shake": rng.choice([8, 30, 200])},
                                                     "random variants"))
    ctx.execute(exe, eps, jobs=8, timeout=300, max_crash=3)
    ctx.execute(plain, slow, jobs=4, timeout=300, max_crash=3)
    ctx.validate("DynTrace", eps + slow, dyn.CONST % "FALSE")
    ctx.assumptions += [dyn.CRYPTO, "thread counts go from 1 to twice the number of processors: the server's key pool has no larger orders"]
