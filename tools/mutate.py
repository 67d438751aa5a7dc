#!/usr/bin/env python3
"""dev helper: systematic one-line mutants of /repo/lib in scratch clones, run through the checks without their
model runs.  mutate.py OUT.jsonl N FILE...   appends one line per mutant with the checks' answers.
"""
import concurrent.futures as cf
import difflib
import hashlib
import importlib
import json
import os
import pickle
import queue
import random
import re
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
CACHE = "/tmp/mutcache"
MAP = [("awonvm_vector", "S01 S02 S03"), ("linux_aio", "S04 S03"), ("thread_pool_aio", "S05"), ("abstractio/scheduler", "S05 S04"),
       ("utils/thread_pool.hpp", "S06"), ("rocksdb_wrapper", "S07 S08 S09 S10"), ("utils/utils", "S11"), ("tethys_graph", "G01 G02 G03 G05"),
       ("tethys_allocator", "G04 G05"), ("encode_encrypt", "T02 T05 T03"), ("encoders", "T02 T01 T03 U02"), ("tethys_store", "T01 T03"), ("tethys_", "T03 T01"), ("details/cuckoo", "C01 C02"),
       ("oceanus/cuckoo.cpp", "C01 C02"), ("oceanus/cuckoo", "C02 C03"), ("oceanus", "C03"), ("pluto", "C04 T05"), ("_runner", "R01 R02"),
       ("sophos", "E01 E02 E03 E08"), ("diana", "E04 E06 E05 E08 E03 E07"), ("janus", "E07 E08 S09"), ("concat", "U01"), ("kv_serial", "U02 T03"),
       ("logger", "U03"), ("db_gen", "U04")]


def props(f):
    for k, p in MAP:
        if k in f:
            return p.split()
    return []


def child(prop):
    from mbv import core
    core.Ctx.model = lambda self, *a, **k: None
    core.Ctx.refute = lambda self, *a, **k: None
    core.Ctx.models_parallel = lambda self, *a, **k: None
    core.Ctx._selftest = lambda self, *a, **k: None
    core.Ctx.idle = lambda self: 25
    orig = core.Ctx.generate

    def gen(self, module, cfg, simulate=None, depth=None, timeout=600, limit=None, workers=1, seed=None):
        key = hashlib.sha1(repr((open(os.path.join(core.SPEC, module + ".tla")).read(), cfg, simulate, depth, self.seed, seed)).encode()).hexdigest()
        p = os.path.join(CACHE, key)
        if not os.path.exists(p):
            r = orig(self, module, cfg, simulate, depth, timeout, None, workers, seed)
            with open(p + ".%d" % os.getpid(), "wb") as f:
                pickle.dump(r, f)
            os.rename(p + ".%d" % os.getpid(), p)
        r = pickle.load(open(p, "rb"))
        return self.rng.sample(r, limit) if limit and len(r) > limit else r
    core.Ctx.generate = gen
    ctx = core.Ctx(prop)
    try:
        importlib.import_module("mbv.props." + prop.lower()).check(ctx)
        known = [k for k, _ in ctx.known()]
        bad = [r for r in ctx.rejections if core.signature(r) not in known]
        print("RESULT", "killed" if bad else "alive")
    except core.CheckError as e:
        s = str(e)
        print("RESULT", "nobuild" if s.startswith("compilation") or s.startswith("link") else "error " + s[:200].replace("\n", " "))
    finally:
        import shutil
        shutil.rmtree(ctx.work, ignore_errors=True)


OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
       (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" / ", " * "),
       (r" % ", " / "), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r" \+= ", " = "),
       (r"\bif \(", "if (!("), (r"!(?=[a-z_(])", ""), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r" \* ", " + "),
       (r"\breturn ([^;]+);", None), (r"std::min", "std::max"), (r"std::max", "std::min"), (r"\.first\b", ".second"), (r"\.second\b", ".first")]


def mutants(path):
    """(line number, new line) of every mutant of the file."""
    src = open(path).read().split("\n")
    out = []
    incomment = False
    for i, line in enumerate(src):
        s = line.strip()
        if incomment or s.startswith("/*"):
            incomment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "template", "using", "namespace", "static_assert", "typename", "logger")) or "LOG" in s or '"' in s:
            continue
        code = line.split("//")[0]
        for pat, rep in OPS:
            if rep is None:
                continue
            for m in re.finditer(pat, code):
                if pat in (r"\b0\b", r"\b1\b") and re.search(r"%\w*$|<$", code[:m.start()]):
                    continue
                new = code[:m.start()] + rep + code[m.end():]
                if rep == "if (!(":
                    j = new.rfind(") {")
                    if j < 0:
                        continue
                    new = new[:j] + ")" + new[j:]
                out.append((i, new))
        # a statement removed
        if re.match(r"^[\w:>.\-\[\]()*]+(\s*[+\-|]?= .*|\(.*\)|\+\+|--);$", s) and not s.startswith(("return", "throw", "delete")):
            if i and src[i - 1].rstrip().endswith((";", "{", "}")) :
                out.append((i, ";"))
    return src, out


def worker(q, res, out):
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    t = os.path.join(d, "repo")
    subprocess.run(["git", "clone", "-q", "--no-hardlinks", "/repo", t], check=True)
    os.makedirs(os.path.join(d, "bin"))
    os.symlink("/usr/bin/ccache", os.path.join(d, "bin", "g++"))
    env = dict(os.environ, VERIF_REPO=t, CCACHE_DIR="/tmp/ccache", CCACHE_MAXSIZE="8G", PATH=os.path.join(d, "bin") + ":" + os.environ["PATH"])
    while True:
        try:
            f, i, new, ps = q.get_nowait()
        except queue.Empty:
            break
        p = os.path.join(t, f)
        orig = open(p).read()
        src = orig.split("\n")
        old = src[i]
        src[i] = new
        open(p, "w").write("\n".join(src))
        t0 = time.time()
        ans = {}
        for pr in ps:
            try:
                r = subprocess.run([sys.executable, os.path.abspath(__file__), "--child", pr], env=env, capture_output=True, text=True,
                                   timeout=600, errors="replace")
                m = re.search(r"^RESULT (.*)", r.stdout, re.M)
                ans[pr] = m.group(1) if m else "error " + (r.stdout + r.stderr)[-200:]
            except subprocess.TimeoutExpired:
                ans[pr] = "error timeout"
            if ans[pr] in ("killed", "nobuild"):
                break
        open(p, "w").write(orig)
        with open(out, "a") as h:
            h.write(json.dumps({"file": f, "line": i + 1, "old": old.strip(), "new": new.strip(), "ans": ans, "s": round(time.time() - t0)}) + "\n")
    subprocess.run(["rm", "-rf", d])


def main():
    out, n, files = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    os.makedirs(CACHE, exist_ok=True)
    q = queue.Queue()
    rng = random.Random(os.environ.get("MUTSEED", "1"))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            o = json.loads(l)
            done.add((o["file"], o["line"], o["new"]))
    allm = []
    for f in files:
        src, ms = mutants(os.path.join("/repo", f))
        ms = [m for m in dict.fromkeys(ms) if (f, m[0] + 1, m[1].strip()) not in done]
        tot = len(ms)
        if len(ms) > n:
            ms = rng.sample(ms, n)
        print(f, tot, "mutants,", len(ms), "run", flush=True)
        allm += [(f, i, new, props(f)) for i, new in ms]
    for m in allm:
        q.put(m)
    k = int(os.environ.get("MUTJOBS", "3"))
    with cf.ThreadPoolExecutor(k) as ex:
        list(ex.map(lambda _: worker(q, None, out), range(k)))


if __name__ == "__main__":
    if sys.argv[1] == "--child":
        child(sys.argv[2])
    else:
        main()
