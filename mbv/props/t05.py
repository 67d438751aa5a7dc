"""T05: what an encrypted static index shows."""
from ..core import Episode
from .t01 import LIBS, POOL

MC = ("SPECIFICATION Spec\nINVARIANTS Covered Independent Inside Own Elsewhere\nCONSTANTS Keys = {%s}\nPositions = {%s}\nPieces = %d\n"
      'Contents = {"x", "y"}\nDesign = "%s"\n')
SH = 'SPECIFICATION Spec\nINVARIANTS SizeOnly\nCONSTANTS Max = %d\nBlock = %d\nBucket = %d\nFill = "%s"\n'
CONST = 'CONSTANTS Keys = {}\nPositions = {}\nPieces = 1\nContents = {}\nDesign = "position"\n'


def check(ctx):
    ctx.models_parallel([
        (("Masks", MC % ("k1, k2", "0, 1, 2", 2, "position"), "two keys, three positions"), {}),
        (("Masks", MC % ("k1", "0, 1, 2, 3", ctx.q(2, 3), "position"), "one key, four positions"), {}),
        (("Shape", SH % (ctx.q(9, 13), 2, 4, "dummies"), "blocks of two"), {}),
        (("Shape", SH % (ctx.q(10, 14), 3, 4, "dummies"), "blocks of three"), {})])
    for d in ("low bits", "shifted", "key free", "prefix"):
        ctx.refute("Masks", MC % ("k1, k2", "0, 1, 2", 2, d), "masks: " + d)
    for f in ("nothing", "always"):
        ctx.refute("Shape", SH % (7, 3, 4, f), "rows filled with: " + f)
    exe = ctx.build("encrypt.cpp", LIBS + ["rocksdb", "cuckoo", "pluto_rocks"], standin=True, ldflags=POOL[1:])
    rng = ctx.rng
    eps = []
    for i in range(ctx.q(60, 600)):
        page = rng.choice([64, 128, 128, 512, 4096])
        n = {64: 40, 128: 30, 512: 14, 4096: 3}[page]
        keys = rng.sample(range(40), rng.choice([1, 2, 3]))
        if rng.random() < 0.4:
            pos = rng.sample(range(27), min(n, 27))
        else:
            s = rng.choice([27, 240, 4080, 65500, 10 ** 6])
            pos = sorted({rng.randrange(27) for _ in range(n // 2)} | set(range(s, s + n // 2)))
        ops, done = [], []
        for p in pos:
            for k in keys:
                for _ in range(rng.choice([1, 1, 2])):
                    c = rng.choice([0, 1, 2, rng.randrange(3, 10 ** 6)])
                    ops.append("enc %d %d %d %d%s" % (k, p, c, rng.choice([0, page, page - 1, page // 2, rng.randrange(page)]),
                                                      rng.choice(["", " new"])))
                done.append((k, p))
            if rng.random() < 0.5:
                k, p1 = rng.choice(done)
                q = rng.choice([x[1] for x in done if x[0] == k])
                if rng.random() < 0.7:
                    ops.append("dec %d %d %d" % (k, p1, q))
                else:
                    ops.append("dec %d %d %d %d %d %d" % (k, p1, q, rng.choice(keys), rng.choice(pos), rng.choice(pos)))
        if len(done) >= 12:
            ops.append("columns")
        eps.append(Episode(ops, {"back": "bucket", "page": page, "seed": i}, "buckets"))
    block = {128: 10, 512: 58}
    for i in range(ctx.q(36, 400)):
        back = ["tethys", "cuckoo", "rocks", "rcuckoo"][i % 4]
        page = rng.choice([128, 128, 512])
        b = block[page]
        ops = []
        ns = [rng.choice([1, b - 1, b, b + 1, 3 * b, 7 * b + 3, 12 * b, 40 * b if page == 128 else 9 * b]) for _ in range(2)]
        for n in ns:
            for _ in range(rng.choice([2, 3])):     # the same number of elements, differently distributed
                left, first, lists, how = n, 2, [], rng.choice(["one", "ones", "blocks", "mixed", "few"])
                while left and len(lists) < 300:
                    m = {"one": n, "ones": 1, "blocks": b, "few": max(1, left - 1), "mixed": rng.choice([1, 2, b - 1, b, b + 1, 2 * b, 3 * b + 1])}[how]
                    m = min(m, left)
                    lists.append("kw%d %d %d" % (len(lists), first, m))
                    first += m
                    left -= m
                    if how == "few" and rng.random() < 0.5:
                        break
                if rng.random() < 0.2:
                    lists.append("none %d 0" % first)
                ops.append("db %d %d %s" % (rng.randrange(40), n, " ".join(lists)))
        rng.shuffle(ops)
        eps.append(Episode(ops, {"back": back, "page": page, "seed": i}, "databases"))
    ctx.execute(exe, eps, jobs=8, timeout=120, max_crash=3)

    ctx.validate("MaskTrace", eps, CONST, mutate=lambda e: dict(e, m=e["m"][:-1] + [0]) if e["ev"] == "enc" else None)
    ctx.assumptions.append("ChaCha20 is real, other primitives are stand-ins; independence of masks means that no 16 bytes of one are found at "
                           "another place, not computational secrecy; rows of Pluto's table are read from the built files")
