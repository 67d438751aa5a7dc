"""S11: the file helpers touch exactly the path they are given."""
from ..core import Episode

W = ("SPECIFICATION Spec\nINVARIANT Outcome\n%sCONSTANTS Names = {%s}\nDepth = %d\nPhysical = %s\nSmall = %s\n")


def random_ops(rng, n):
    """Builds a tree, then calls helpers on it; the known paths are tracked roughly, to hit existing ones."""
    known, dirs, ops, real = [], [""], [], set()
    for _ in range(n):
        x = rng.random()
        d = rng.choice(dirs)
        new = (d + "/" if d else "") + rng.choice("abcde")
        old = rng.choice(known) if known and rng.random() < 0.85 else new
        if rng.random() < 0.25 and known:
            old = old + "/" + rng.choice("abcde")
        if old.count("/") > 4:
            continue
        if x < 0.22:
            ops.append("mkdir " + new)
            if new not in known:
                dirs.append(new)
                real.add(new)
            known.append(new)
        elif x < 0.36:
            ops.append("touch %s %d" % (new, rng.randrange(4)))
            known.append(new)
        elif x < 0.48:
            # links are created only inside directories that are really directories
            if new not in known and all("/".join(d.split("/")[:i + 1]) in real for i in range(d.count("/") + 1)) or not d:
                t = rng.choice(known) if known and rng.random() < 0.8 else rng.choice("abcde")
                ops.append("link %s %s" % (new, t))
                known.append(new)
        elif x < 0.52:
            ops.append("lock " + rng.choice(dirs[1:] or ["a"]))
        elif x < 0.62:
            ops.append("rmfile " + old)
        elif x < 0.72:
            ops.append("rmdir " + old)
            if old in dirs and old:
                dirs = [y for y in dirs if y != old and not y.startswith(old + "/")]
                known = [y for y in known if y != old and not y.startswith(old + "/")]
        elif x < 0.8:
            ops.append("openfd " + old)
        elif x < 0.85:
            ops.append("mkdir " + old)
        else:
            ops.append("query " + old)
    return ops


def check(ctx):
    ctx.models_parallel([(("FsWalk", W % ("PROPERTY Ends\n", "a", 3, "TRUE", "FALSE"), "walk of remove_directory ends, depth 3"), {}),
                         (("FsWalk", W % ("", "a, b", 2, "TRUE", ctx.q("TRUE", "FALSE")), "walk of remove_directory, all trees of two names and depth 2"), {"workers": 4})])
    ctx.refute("FsWalk", W % ("", "a, b", 2, "FALSE", "TRUE"), "links followed")
    exe = ctx.build("fs.cpp", ["utils", "logger"])
    eps = []
    for h in ctx.generate("FsTreeGen", 'SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS Names = {"a", "b"}\nMaxLen = 2\nDepth = %d\n'
                          % ctx.q(7, 9), simulate=ctx.q(400, 4000), depth=12, limit=ctx.q(250, 3000)):
        ops = []
        for o in h:
            ops.append(" ".join([o[0]] + ["/".join(x) for x in o[1:]] + (["3"] if o[0] == "touch" else [])))
            ops += ["query " + "/".join(o[1]), "query " + "/".join(o[-1])]
        eps.append(Episode(ops, {}, "TLC behaviour"))
    for i in range(ctx.q(150, 2000)):
        eps.append(Episode(random_ops(ctx.rng, ctx.rng.choice([12, 25, 60])), {}, "random"))
    ctx.execute(exe, eps, jobs=8)
    flip = {"true": "false", "false": "true"}
    ctx.validate("FsTreeTrace", eps, "", mutate=lambda e: dict(e, r=flip[e["r"]]) if e["ev"] in ("mkdir", "rmfile")
                 else dict(e, r=[not e["r"][0]] + e["r"][1:]) if e["ev"] == "query" else None)
    ctx.extra["errors_reported"] = sum(1 for e in eps for o in e.events if o.get("r") == "error")
