"""What the checks of the dynamic schemes share."""
from ..core import Episode

LIBS = ["logger", "rocksdb", "utils", "sophos_common", "sophos_client", "sophos_server", "diana_common", "janus_client",
        "janus_server"]
CONST = "CONSTANTS Keys = {}\nDocs = {}\nMaxIns = 0\nCanDelete = %s\nCoversAll = TRUE\n"
ECONST = "CONSTANTS Keys = {}\nDocs = {}\nMaxOps = 0\nShortCount = FALSE\nKeepInsertions = FALSE\n"
MC = ("SPECIFICATION Spec\nINVARIANT Exact\nPROPERTIES DeletesAll Independent SearchKeeps\nCONSTANTS Keys = {%s}\n"
      "Docs = {1, 2}\nMaxIns = %d\nCanDelete = %s\nCoversAll = %s\n")
CRYPTO = ("the cryptographic library is replaced by stand-ins with the same algebra (deterministic, collision-free, same "
          "capabilities) and no hardness; the real one is not in this tree")


def build(ctx, shake=False):
    if shake:
        return ctx.build("dyn.cpp", LIBS, standin=True, ldflags=["-rdynamic"], defines=["SHAKE"], opt="-O0", name="dynshake",
                         flags=["-finstrument-functions"])
    return ctx.build("dyn.cpp", LIBS, standin=True, ldflags=["-rdynamic"])


def models(ctx, delete):
    d = "TRUE" if delete else "FALSE"
    ctx.models_parallel([
        (("DynIndex", MC % ('"a", "b"', ctx.q(3, 4), d, "TRUE"), "two keywords"), {}),
        (("DynIndex", MC % ('"a"', ctx.q(4, 6), d, "TRUE"), "one keyword"), {})])
    ctx.refute("DynIndex", MC % ('"a"', 3, d, "FALSE"), "requests that miss the last position")


def sophos_how(rng, hw):
    t = lambda: rng.choice([1, 2, 3, hw, 2 * hw, rng.randrange(1, 2 * hw + 1)])
    c = lambda: rng.choice([1, 2, 5, 20])
    return rng.choice(["seq", "cb", "par %d" % c(), "light %d" % min(t(), 2 * hw), "parcb %d %d %d" % (min(t(), 2 * hw), c(), c()),
                       "lightcb %d" % min(t(), 2 * hw)])


def diana_how(rng, d):
    n = rng.choice([1, 2, 3, 4, 7, 8, 16, 64, 255, rng.randrange(1, 256)])
    return rng.choice(["seq 0 %d" % d, "cb 0 %d" % d, "par %d %d" % (n, d), "parcb %d %d" % (n, d), "partl %d %d" % (n, d),
                       "parvec %d %d %d" % (n, d, rng.choice([0, 1, 3, 10, 100]))])


def janus_how(rng):
    n = rng.choice([1, 2, 3, 8, 200])
    return rng.choice(["seq 0", "seq 0", "par %d" % n, "parcb %d" % n, "partid %d" % n])


FAMILIES = [["a", "b"], ["kw", "kw1", "kw10", "kw100", "Kw1"], ["x" * 64 + "a", "x" * 64 + "b", "x" * 64, "x" * 63], ["x" * 300, "x" * 299 + "y", "y" + "x" * 299],
            ["0", "00", "00000000", "0000000000000000", "1"], ["@empty", "@", "a"], ["ab", "ba", "aab", "abb"],
            ["a\u00e9b".encode().hex(), "key", "key ".strip() + "_1", "key_11", "key1_1"]]


def keywords(rng, n):
    """n keywords, half of the time similar ones."""
    if rng.random() < 0.5:
        f = rng.choice(FAMILIES)
        pool = rng.sample(f, min(n, len(f)))
    else:
        pool = []
    rest = [k for f in FAMILIES for k in f if k not in pool]
    return list(dict.fromkeys(pool + rng.sample(rest, len(rest))))[:n]


def gen(ctx, module, consts, depth, limit, simulate):
    return ctx.generate(module, "SPECIFICATION GSpec\nCONSTRAINT Emit\n" + consts + "Depth = %d\n" % depth,
                        simulate=simulate, depth=depth + 1 if simulate else None, limit=limit)


def lower(h, how, again=None):
    """A history of the specification as operations of the harness."""
    ops = []
    for o in h:
        if o["op"] in ("ins", "rem"):
            ops.append("%s %s %d" % (o["op"], o["k"], o["v"]))
        elif o["op"] == "search":
            ops.append("search %s %s" % (o["k"], how(o.get("d", False))))
        elif o["op"] == "again":
            ops.append("again %s" % how(o.get("d", False)))
        elif o["op"] == "forget":
            ops.append("forget %s" % o["k"])
        elif o["op"] == "reopen":
            ops.append("reopen both")
    return ops
