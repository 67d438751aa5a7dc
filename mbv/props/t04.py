"""T04: building and reading a static index on a disk that fails: an error, or the right results."""
from ..core import Episode
from .s04 import WRAP
from .t01 import LIBS, POOL

MC = "SPECIFICATION Spec\nINVARIANTS Complete\nCONSTANTS Entries = {%s}\nIgnoreStash = %s\nIgnoreCount = %s\nShortStash = %s\n"
BLOCK = {"tethys": {128: 10, 4096: 506}, "store": {128: 10, 4096: 506}, "pcuckoo": {512: 58}, "rocks": {128: 10}, "rcuckoo": {128: 10}}


def unreported(i, kind):
    # asynchronous lookups have no way to report that a read failed
    p = {"kind": kind, "page": 4096, "seed": i, "eps": 30, "depth": 100, "space": 1 << 20, "nodir": 0, "direct": 0, "n": 3, "max": 30}
    ops = ["start", "put kw0 0 1", "put kw1 20 1", "put kw2 40 1", "build", "open", "aget kw0", "aget kw2", "aget kw9", "arm 1 20 1000000", "aget kw1"]
    return Episode(ops, p, "asynchronous lookup on a failing disk", tag="aget-" + kind)


def episode(rng, i, kind):
    page = {"oceanus": 4096, "pcuckoo": 512, "rocks": 128, "rcuckoo": 128}.get(kind) or rng.choice([128, 128, 128, 4096])
    p = {"kind": kind, "page": page, "seed": i, "eps": rng.choice([5, 30]), "depth": rng.choice([0, 1, 200]), "space": rng.choice([3, 10, 1 << 20]),
         "nodir": 0, "direct": 0, "n": 0}
    names = ["kw%d" % j for j in range(rng.choice([1, 3, 8, 15]))]
    ops, first = ["start"], 0
    early = rng.random() < 0.1
    if early:
        ops.insert(0, "arm %d %d %d" % (int(2 ** rng.uniform(0, 6)), rng.choice([10, 11, 12]), rng.choice([1, 3, 1000000])))
    lists = []
    for k in names:
        if kind == "oceanus":
            n = 1
        else:
            b = BLOCK[kind][page]
            n = rng.choice([0, 1, b - 1, b] + ([b + 1, 2 * b, 2 * b + 1] if kind != "store" else []))
            if kind == "store":
                n = min(n, b)
        lists.append((k, first, n))
        first += n + 7
    tot = sum(x[2] + 6 for x in lists)
    p["n"] = sum(x[2] for x in lists)
    p["max"] = max(1, len(lists) if kind == "oceanus" else int(tot * rng.choice([0.2, 0.5, 1, 2])))
    body = ["put %s %d %d" % x for x in lists]
    x = rng.random()
    if x < 0.55 and not early:      # at any call of the construction
        at = rng.randrange(len(body) + 1)
        body.insert(at, "arm %d %d %d" % (int(2 ** rng.uniform(0, 6)) if rng.random() < 0.5 else rng.choice([1, 2, 3]),
                                          rng.choice([10, 10, 11, 12, 20, 21]), rng.choice([1, 1, 2, 1000000])))
        if at < len(body) and rng.random() < 0.3:
            body.insert(rng.randrange(at + 1, len(body) + 1), "heal")
    elif x < 0.6 and kind != "oceanus":
        p["nodir"] = 1
    ops += body + ["build"]
    for _ in range(rng.choice([1, 2, 3])):
        ops.append("open")
        look = names + ["absent", "kw77"]
        rng.shuffle(look)
        for k in look:
            if rng.random() < 0.25:
                ops.append("arm %d %d %d" % (rng.choice([1, 1, 2, 3]), rng.choice([20, 21]), rng.choice([1, 1, 2, 1000000])))
            ops.append(("aget " if kind in ("store", "oceanus") and not any(o.startswith("arm") for o in ops[ops.index("open"):])
                        and rng.random() < 0.4 else "get ") + k)
            if rng.random() < 0.3:
                ops.append("heal")
        if rng.random() < 0.5:
            # the next opening reads a disk that fails
            ops += ["open", "armopen %d %d %d" % (rng.choice([1, 1, 2, 3, 5, 8]), rng.choice([20, 21]), rng.choice([1, 1000000]))]
            ops += ["get " + k for k in names]
    return Episode(ops, p, "failing disk")


def check(ctx):
    F = ("FALSE",) * 3
    ctx.model("StaticFault", MC % (("e1, e2, e3" if ctx.tier == "quick" else "e1, e2, e3, e4",) + F), "construction and opening")
    for v, t in ((("TRUE", "FALSE", "FALSE"), "a stash that could not be written is forgotten"),
                 (("FALSE", "TRUE", "FALSE"), "a counter that could not be written is forgotten"),
                 (("FALSE", "FALSE", "TRUE"), "a stash that could not be read is cut")):
        ctx.refute("StaticFault", MC % (("e1, e2",) + v), t)
    exe = ctx.build("buildfault.cpp", LIBS + ["rocksdb", "cuckoo", "pluto_rocks"], standin=True, ldflags=["-rdynamic", POOL[1]])
    rng = ctx.rng
    kinds = ["store", "tethys", "oceanus", "pcuckoo", "rocks", "tethys", "store", "rcuckoo"]
    eps = [episode(rng, i, kinds[i % len(kinds)]) for i in range(ctx.q(240, 3000))]
    eps += [unreported(i, k) for k in ("store", "oceanus") for i in (1, 2)]
    ctx.execute(exe, eps, jobs=8, timeout=300, max_crash=3)
    ctx.validate("StaticFaultTrace", eps, "CONSTANTS Ignore = 0\n",
                 mutate=lambda e: dict(e, r=e["r"] + [123456]) if e["ev"] == "search" and e["ok"] and e["f"] == 0 else None)
    evs = [e for ep in eps for e in ep.events]
    ctx.extra["refused"] = {n: sum(1 for e in evs if e["ev"] == n and not e["ok"]) for n in ("start", "put", "build", "open", "search")}
    ctx.extra["indexes_built"] = sum(1 for e in evs if e["ev"] == "build" and e["ok"])
    ctx.assumptions += ["a failing write writes nothing, a part, or all of its data and returns ENOSPC or EIO; a failing read returns EIO or fewer bytes",
                        "the counters a Tethys client reads are on a healthy disk when it searches (their interface cannot report a failure)",
                        "power failures are not covered: what the file system accepted is there"]
