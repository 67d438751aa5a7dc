"""Machinery shared by all checks: build the harness from /repo, run TLC, bind traces.

A check does, in this order:
  1. model    - TLC explores a specification exhaustively within small constants
  2. generate - TLC enumerates (or simulates) behaviours of the specification as
                JSON operation sequences; a seeded Python generator adds bigger ones
  3. execute  - a C++ harness, compiled from /repo's working tree, runs the operations
                on the real code and records one event per operation, with its result
  4. validate - TLC decides whether each recorded episode is a behaviour of the
                specification (trace specification); nothing else decides.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
START = time.time()
NCPU = min(8, os.cpu_count() or 4)

LIB = {
    "logger": "lib/utils/logger.cpp",
    "rocksdb": "lib/utils/rocksdb_wrapper.cpp",
    "utils": "lib/utils/utils.cpp",
    "aio": "lib/abstractio/linux_aio_scheduler.cpp",
    "sched": "lib/abstractio/scheduler.cpp",
    "tpaio": "lib/abstractio/thread_pool_aio_scheduler.cpp",
    "graph": "lib/tethys/tethys_graph.cpp",
    "alloc": "lib/tethys/tethys_allocator.cpp",
    "sophos_common": "lib/sophos/sophos_common.cpp",
    "sophos_client": "lib/sophos/sophos_client.cpp",
    "sophos_server": "lib/sophos/sophos_server.cpp",
    "diana_common": "lib/diana/diana_common.cpp",
    "janus_client": "lib/janus/janus_client.cpp",
    "janus_server": "lib/janus/janus_server.cpp",
    "cuckoo": "lib/oceanus/cuckoo.cpp",
    "pluto_rocks": "lib/pluto/rocksdb_store.cpp",
    "dbgen": "lib/utils/db_generator.cpp",
    "sophos_crun": "lib/sophos/sophos_client_runner.cpp",
    "sophos_srun": "lib/sophos/sophos_server_runner.cpp",
    "diana_crun": "lib/diana/client_runner.cpp",
    "diana_srun": "lib/diana/server_runner.cpp",
}


class CheckError(Exception):
    """The check itself failed (build, model or tool): exit code 2, never a violation."""


def log(*a):
    print(*a, flush=True)


class Episode:
    """A scenario (operation lines for the harness) and the events recorded for it."""

    def __init__(self, ops, params=None, origin="generated", tag=""):
        self.ops = list(ops)          # list of strings, one operation per line
        self.params = dict(params or {})  # goes into the Reset event, and to the harness
        self.origin = origin
        self.tag = tag
        self.events = []

    def header(self):
        return "EPISODE " + " ".join("%s=%s" % (k, v) for k, v in self.params.items()
                                     if isinstance(v, (str, int)))

    def text(self):
        return "\n".join([self.header()] + self.ops) + "\n"

    def trace(self):
        r = {"ev": "Reset"}
        r.update(self.params)
        return [r] + self.events


class Rejection:
    def __init__(self, spec, episode, index, event, note=""):
        self.spec, self.episode, self.index, self.event, self.note = spec, episode, index, event, note


class Ctx:
    def __init__(self, prop, again=False):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "build", "%s-%d%s" % (prop, os.getpid(), "-again" if again else ""))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.traces_ok = 0
        self.events_ok = 0
        self.samples = []
        self.models = []
        self.extra = {}
        self.assumptions = []
        self.rejections = []
        self.n = 0
        self.again = again   # a confirmation run
        self._pool = cf.ThreadPoolExecutor(NCPU)

    def q(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def path(self, name):
        return os.path.join(self.work, name)

    # ------------------------------------------------------------------ build
    def build(self, harness, libs, standin=False, defines=(), ldflags=(), opt="-O1",
              name=None, extra_src=(), flags=()):
        """Compiles /verif/harness/<harness> and the given /repo/lib sources into one program."""
        t = time.time()
        inc = self.path("inc")
        os.makedirs(os.path.join(inc, "sse"), exist_ok=True)
        with open(os.path.join(REPO, "lib/include/sse/configure.hpp.in")) as f:
            conf = f.read()
        conf = re.sub(r"#cmakedefine\s+HAS_LIBAIO\b", "#define HAS_LIBAIO", conf)
        conf = re.sub(r"#cmakedefine\s+(\w+)", r"/* #undef \1 */", conf)
        with open(os.path.join(inc, "sse/configure.hpp"), "w") as f:
            f.write(conf)
        flags = ["-std=gnu++17", opt, "-g1", "-w", "-pthread", "-ftrivial-auto-var-init=pattern",
                 "-DFMT_SHARED", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_SHARED_LIB",
                 "-Dnew_table_reader_for_compaction_inputs=is_fd_close_on_exec"] + list(flags)
        flags += ["-D" + d for d in defines]
        flags += ["-I" + os.path.join(VERIF, "harness")]
        if standin:
            flags += ["-I" + os.path.join(VERIF, "standin/include")]
        flags += ["-I" + REPO + "/lib/include", "-I" + inc, "-I" + REPO + "/lib",
                  "-I" + inc + "/sse", "-I" + REPO + "/lib/include/sse/schemes"]
        srcs = [os.path.join(VERIF, "harness", harness)]
        srcs += [os.path.join(REPO, LIB[x]) for x in libs]
        srcs += [os.path.join(VERIF, x) for x in extra_src]
        tag = hashlib.sha1((harness + str(defines) + str(name) + str(flags)).encode()).hexdigest()[:8]

        def cc(i_src):
            i, src = i_src
            obj = self.path("o_%s_%d.o" % (tag, i))
            r = subprocess.run(["g++"] + flags + ["-c", src, "-o", obj],
                               capture_output=True, text=True, timeout=600)
            if r.returncode != 0:
                raise CheckError("compilation of %s failed:\n%s" % (src, r.stderr[-4000:]))
            return obj
        objs = list(self._pool.map(cc, enumerate(srcs)))
        exe = self.path(name or harness.replace(".cpp", ""))
        san = [f for f in flags if f.startswith("-fsanitize")]

        def link(objs):
            return subprocess.run(["g++", "-pthread"] + san + ["-o", exe] + objs + list(ldflags) +
                                  ["-lrocksdb", "-lspdlog", "-lfmt", "-laio", "-ldl"],
                                  capture_output=True, text=True, timeout=600)
        r = link(objs)
        if r.returncode != 0 and "undefined reference" in r.stderr:
            # code may have moved between the library's files: offer all the others that compile
            rest = []
            for d, _, fs in os.walk(os.path.join(REPO, "lib")):
                rest += [os.path.join(d, f) for f in sorted(fs)
                         if f.endswith(".cpp") and os.path.join(d, f) not in srcs]

            def cc_try(i_src):
                try:
                    return cc((100 + i_src[0], i_src[1]))
                except CheckError:
                    return None
            more = [o for o in self._pool.map(cc_try, enumerate(sorted(rest))) if o]
            lib = self.path("lib_%s.a" % tag)
            subprocess.run(["ar", "rcs", lib] + more, capture_output=True, timeout=600)
            r2 = link(objs + [lib])
            r = r2 if r2.returncode == 0 else r
        if r.returncode != 0:
            raise CheckError("link of %s failed:\n%s" % (harness, r.stderr[-4000:]))
        log("built %s in %.1fs" % (os.path.basename(exe), time.time() - t))
        return exe

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, args=(), env=None, timeout=600, workers="1", mem="2g", files=None):
        self.n += 1
        d = self.path("tlc%d_%s_%d" % (self.n, module, random.getrandbits(24)))
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for k, v in (files or {}).items():
            with open(os.path.join(d, k), "w") as f:
                f.write(v)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseSerialGC" if str(workers) == "1" else "-XX:+UseParallelGC", "-Xmx" + mem,
               "-Xss64m", "-cp", TLA_CP, "tlc2.TLC", "-config", module + ".cfg", "-workers", str(workers),
               "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    @staticmethod
    def _counts(out):
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        if m:
            a, b = m[-1]
            return int(a.replace(",", "")), int(b.replace(",", ""))
        m = re.findall(r"number of states generated: (\d[\d,]*)", out)
        if m:
            return int(m[-1].replace(",", "")), 0
        return 0, 0

    def model(self, module, cfg, what, timeout=800, workers=None, min_states=2, liveness=False, mem="6g"):
        """Exhaustive exploration of a specification; any error is an error of the model."""
        t = time.time()
        args = ["-coverage", "1"] if os.environ.get("VERIF_COVERAGE") else []
        if "CHECK_DEADLOCK" not in cfg:
            cfg += "\nCHECK_DEADLOCK FALSE\n"
        rc, out = self._tlc(module, cfg, args, timeout=timeout, workers=workers or 4, mem=mem)
        if os.environ.get("VERIF_COVERAGE"):
            log(out)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model %s (%s) failed:\n%s" % (module, what, out[-6000:]))
        gen, dist = self._counts(out)
        if dist < min_states:
            raise CheckError("model %s is vacuous (%d states)" % (module, dist))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "what": what, "distinct_states": dist, "generated": gen,
                            "depth": int(m.group(1)) if m else None, "wall_s": round(time.time() - t, 1)})
        log("model %s: %d distinct states, %d generated, %.1fs" % (module, dist, gen, time.time() - t))

    def refute(self, module, cfg, what, timeout=800, mem="6g", workers=2):
        """A variant of the model known to be wrong (e.g. a defect that was repaired): TLC must find
        the violation, which shows that the stated properties can fail."""
        t = time.time()
        if "CHECK_DEADLOCK" not in cfg:
            cfg += "\nCHECK_DEADLOCK FALSE\n"
        rc, out = self._tlc(module, cfg, timeout=timeout, workers=workers, mem=mem)
        m = re.search(r"Invariant \w+ is violated|Action property \w+ is violated|Temporal propert\w+ \w[\w ]* violated", out)
        if rc == 0 or not m:
            raise CheckError("the wrong variant of %s (%s) was not refuted:\n%s" % (module, what, out[-3000:]))
        gen, dist = self._counts(out)
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "what": what + " (wrong variant, refuted: %s)" % m.group(0),
                            "distinct_states": dist, "generated": gen, "wall_s": round(time.time() - t, 1)})
        log("model %s: wrong variant (%s) refuted, %.1fs" % (module, what, time.time() - t))

    def models_parallel(self, jobs):
        fs = [self._pool.submit(self.model, *a, **k) for a, k in jobs]
        for f in fs:
            f.result()

    def generate(self, module, cfg, simulate=None, depth=None, timeout=600, limit=None, workers=1, seed=None):
        """Behaviours of the specification, as the JSON values the spec prints after '@@'."""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth or 50),
                    "-seed", str(seed if seed is not None else self.seed)]
        if "CHECK_DEADLOCK" not in cfg:
            cfg += "\nCHECK_DEADLOCK FALSE\n"
        rc, out = self._tlc(module, cfg, args, timeout=timeout, workers=workers, mem="6g")
        if rc != 0 and not simulate:
            raise CheckError("generator %s failed:\n%s" % (module, out[-4000:]))
        if simulate and ("Error:" in out):
            raise CheckError("generator %s failed:\n%s" % (module, out[-4000:]))
        res = []
        seen = set()
        for line in out.splitlines():
            if line.startswith('"@@') or line.startswith("@@"):
                s = line.strip()
                if s.startswith('"'):
                    s = json.loads(s)
                s = s[2:]
                if s not in seen:
                    seen.add(s)
                    res.append(json.loads(s))
        gen, dist = self._counts(out)
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "what": "generation of behaviours", "distinct_states": dist,
                            "generated": gen, "behaviours": len(res)})
        if not res:
            raise CheckError("generator %s produced nothing:\n%s" % (module, out[-3000:]))
        if limit and len(res) > limit:
            res = self.rng.sample(res, limit)
        log("generated %d behaviours from %s" % (len(res), module))
        return res

    # ------------------------------------------------------------------ execution
    def left(self):
        """What remains of the time a quick check may take."""
        return 840 - (time.time() - START) if self.tier == "quick" else 10 ** 6

    def idle(self):
        return min(self.q(90, 300), max(20, self.left() / 4))

    def timeout(self, t):
        return min(t, max(30, self.left() / 2)) if self.tier == "quick" else 4 * t

    def execute(self, exe, episodes, timeout=240, env=None, args=(), max_crash=6, jobs=1, preserve=None):
        """Runs the episodes through the harness; a crash or a hang becomes an event."""
        if jobs > 1 and len(episodes) > jobs:
            parts = [episodes[i::jobs] for i in range(jobs)]
            list(self._pool.map(lambda p: self.execute(exe, p, timeout, env, args, max_crash), parts))
            episodes[:] = [e for e in episodes if e.events is not None]
            if not episodes:
                raise CheckError("no episode was completed in time")
            return episodes
        todo = list(episodes)
        crashes = 0
        begin = time.time()
        while todo:
            self.n += 1
            base = self.path("run%d_%d" % (self.n, random.getrandbits(30)))
            scratch = base + ".d"
            os.makedirs(scratch)
            with open(base + ".in", "w") as f:
                for e in todo:
                    f.write(e.text())
                f.write("END\n")
            en = dict(os.environ)
            en.update(env or {})
            t = time.time()
            with open(base + ".err", "w") as err:
                pr = subprocess.Popen([exe, base + ".in", base + ".out", scratch] + [str(a) for a in args],
                                      stdout=err, stderr=err, env=en, cwd=scratch, start_new_session=True)
                rc, last, last_ep, tail, seen = None, t, t, b"", None
                while rc is None:
                    try:
                        rc = pr.wait(timeout=1)
                    except subprocess.TimeoutExpired:
                        now = time.time()
                        if seen is None and os.path.exists(base + ".out"):
                            seen = open(base + ".out", "rb")
                        new = seen.read() if seen else b""
                        if new:
                            last = now
                        if b'"@episode"' in tail + new:
                            last_ep = now
                        tail = new[-9:]
                        # a hang: no event, or no end of an episode, for a long time
                        if now - last > self.idle():
                            rc = "timeout"
                        elif now - begin > self.timeout(timeout):
                            rc = "timeout" if now - last_ep > self.idle() else "late"
                if seen:
                    seen.close()
                try:
                    os.killpg(pr.pid, signal.SIGKILL)
                except OSError:
                    pass
                pr.wait()
            groups, done = [], False
            if os.path.exists(base + ".out"):
                with open(base + ".out", errors="replace") as f:
                    for line in f:
                        try:
                            o = json.loads(line)
                        except ValueError:
                            continue  # a line cut by a crash
                        if o.get("ev") == "@episode":
                            groups.append([])
                        elif o.get("ev") == "@end":
                            done = True
                        elif groups:
                            groups[-1].append(o)
            with open(base + ".err", errors="replace") as f:
                errtxt = f.read()[-3000:]
            shutil.rmtree(scratch, ignore_errors=True)
            for i, g in enumerate(groups):
                if i < len(todo):
                    todo[i].events = g
            if rc == 0 and done:
                if len(groups) != len(todo):
                    raise CheckError("harness %s ran %d of %d episodes" % (exe, len(groups), len(todo)))
                todo = []
                break
            if not groups:
                if not (isinstance(rc, int) and rc < 0):
                    raise CheckError("harness %s did not start: rc=%s\n%s" % (exe, rc, errtxt))
                groups, todo[0].events = [[]], []
            if rc == 3:
                raise CheckError("harness error: " + errtxt)
            k = len(groups) - 1
            if rc == "late":
                # slow (for instance because of waits that end without what was waited for): what was recorded decides
                log("execution stopped after %d of %d episodes" % (k, len(todo)))
                for e in todo[k:]:
                    e.events = None
                episodes[:] = [e for e in episodes if e.events is not None]
                self.extra["episodes_not_run"] = self.extra.get("episodes_not_run", 0) + len(todo) - k
                break
            if rc == "timeout":
                todo[k].events.append({"ev": "Hang", "after": timeout})
            else:
                todo[k].events.append({"ev": "Crash", "rc": rc if isinstance(rc, int) else -1})
            todo[k].stderr = errtxt
            log("episode ended abnormally: rc=%s\n%s" % (rc, errtxt[-600:]))
            crashes += 1
            todo = todo[k + 1:]
            if crashes >= max_crash or rc == "timeout":
                for e in todo:
                    e.events = None
                episodes[:] = [e for e in episodes if e.events is not None]
                break
        return episodes

    # ------------------------------------------------------------------ validation
    def _validate_chunk(self, module, cfg, eps, timeout):
        """Returns (accepted episodes, rejections)."""
        accepted, rejected = 0, []
        while eps:
            self.n += 1
            f = self.path("trace_%d_%d.ndjson" % (self.n, random.getrandbits(30)))
            idx = []
            with open(f, "w") as h:
                for i, e in enumerate(eps):
                    for j, o in enumerate(e.trace()):
                        h.write(json.dumps(o) + "\n")
                        idx.append((i, j))
            rc, out = self._tlc(module, cfg, env={"TRACE": f}, timeout=timeout, mem="3g")
            m = re.search(r"@@MAXL[^0-9]*(\d+)", out)
            if not m and "Error:" in out:
                # TLC stopped before the postcondition: the last state tells where it was
                m = (re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M) or [None])[-1]
                m = m and re.match(r"(\d+)", m)
            if not m:
                raise CheckError("trace validation with %s failed:\n%s" % (module, out[-5000:]))
            maxl = int(m.group(1))
            gen, dist = self._counts(out)
            self.states += dist
            self.transitions += gen
            if maxl == len(idx) + 1 and "Error:" not in out:
                accepted += len(eps)
                self.events_ok += len(idx)
                os.unlink(f)
                break
            note = ""
            mm = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated", out)
            if "Error:" in out and not mm and "ostcondition" not in out:
                # an evaluation error of the specification on this trace: the event carries
                # a value outside the domain of the action; keep TLC's words
                em = re.search(r"Error: (?!TLC threw)(.{0,600})", out, re.S)
                note = "evaluation error: " + (em.group(1) if em else "")[:400]
                if "StackOverflow" in out or "OutOfMemory" in out or "Parsing" in out or "Semantic error" in out:
                    raise CheckError("TLC failed on %s:\n%s" % (module, out[-5000:]))
            if mm:
                note = mm.group(0)
                maxl = max(2, maxl)
            if maxl > len(idx):
                maxl = len(idx)
            i, j = idx[maxl - 1]
            if note.startswith("evaluation"):
                # the event carries a value outside the domain of every action
                log("TLC could not evaluate the specification at event %s: %s\n%s" % (
                    json.dumps(eps[i].trace()[j])[:800], note, out[-1500:]))
            rejected.append(Rejection(module, eps[i], j, eps[i].trace()[j], note))
            accepted += i
            eps = eps[i + 1:]
            if len(rejected) >= 4:
                break
        return accepted, rejected

    def validate(self, module, episodes, constants="", timeout=600, per_chunk=6000, selftest=True, mutate=None):
        """Decides by TLC whether every recorded episode is a behaviour of the specification."""
        t = time.time()
        cfg = ("SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
               "CONSTRAINT TraceMark\n" + constants)
        chunks, cur, n = [], [], 0
        total = sum(len(e.events) + 1 for e in episodes)
        target = min(per_chunk, max(200, total // NCPU + 1))
        for e in episodes:
            cur.append(e)
            n += len(e.events) + 1
            if n >= target:
                chunks.append(cur)
                cur, n = [], 0
        if cur:
            chunks.append(cur)
        res = list(self._pool.map(lambda c: self._validate_chunk(module, cfg, c, timeout), chunks))
        rej = [r for _, rs in res for r in rs]
        ok = sum(a for a, _ in res)
        self.traces_ok += ok
        log("validated %d episodes (%d events) against %s: %d accepted, %d rejected, %.1fs"
            % (len(episodes), total, module, ok, len(rej), time.time() - t))
        if episodes and len(self.samples) < 4:
            e = self.rng.choice(episodes)
            self.samples.append({"spec": module, "origin": e.origin, "params": e.params,
                                 "events": e.events[:12], "events_total": len(e.events)})
        if selftest and not rej:
            self._selftest(module, cfg, episodes, timeout, mutate)
        self.rejections += rej
        return rej

    def _selftest(self, module, cfg, episodes, timeout, mutate):
        """Corrupts one recorded result and demands that the specification rejects it."""
        def default(e):
            if "r" not in e:
                return None
            r = e["r"]
            o = dict(e)
            if isinstance(r, bool):
                o["r"] = not r
            elif isinstance(r, int):
                o["r"] = r + 1
            elif isinstance(r, str):
                o["r"] = r + "~"
            elif isinstance(r, list):
                if r and not isinstance(r[0], type(r[-1])):
                    return None
                o["r"] = r[:-1] if r else None
                if not r:
                    return None
            else:
                return None
            return o
        mutate = mutate or default
        cands = [(e, i) for e in episodes for i, o in enumerate(e.events) if mutate(o) is not None]
        if not cands:
            raise CheckError("no event of %s could be corrupted for the binding self-test" % module)
        picks = self.rng.sample(cands, min(self.q(2, 6), len(cands)))

        def one(p):
            e, i = p
            c = Episode(e.ops, e.params)
            c.events = e.events[:i] + [mutate(e.events[i])] + e.events[i + 1:]
            st, tr, ev = self.states, self.transitions, self.events_ok
            a, r = self._validate_chunk(module, cfg, [c], timeout)
            if not r:
                raise CheckError("binding self-test: %s accepted the corrupted event %s (was %s)"
                                 % (module, json.dumps(c.events[i])[:500], json.dumps(e.events[i])[:500]))
            return 1
        n = sum(self._pool.map(one, picks))
        self.extra["corrupted_traces_rejected"] = self.extra.get("corrupted_traces_rejected", 0) + n

    # ------------------------------------------------------------------ verdict
    def known(self):
        res = []
        f = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(f):
            for line in open(f):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == self.prop:
                    res.append((m.group(2), m.group(3)))
        return res

    def save_replay(self, rej, k):
        d = os.path.join(VERIF, "build", "replay", self.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.tier, k))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "spec": rej.spec, "note": rej.note, "origin": rej.episode.origin,
                       "scenario": rej.episode.text(), "rejected_event_index": rej.index,
                       "rejected_event": rej.event, "trace": rej.episode.trace()[:rej.index + 1],
                       "stderr": getattr(rej.episode, "stderr", "")}, f, indent=1)
        return p

    def evidence(self, violations):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces_ok,
               "events_validated": self.events_ok, "models": self.models, "samples": self.samples}
        cov.update(self.extra)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
                       "coverage": cov, "assumptions": self.assumptions,
                       "wall_s": round(time.time() - self.t0, 2), "violations": violations}, f, indent=1)


def signature(rej):
    """Stable identity of a rejection, used to match the known-findings file."""
    return rej.episode.tag or "%s:%s" % (rej.spec, rej.event.get("ev"))


def run(prop, module):
    ctx = Ctx(prop)
    rc = 2
    try:
        module.check(ctx)
        rejs = ctx.rejections
        if rejs and hasattr(module, "confirm"):
            rejs = module.confirm(ctx, rejs)
        elif rejs and all(r.event.get("ev") == "Hang" for r in rejs):
            # a hang may be the machine's, a rejected trace of the code is not: see whether a second run of the whole pipeline repeats one
            log("rejections found; repeating the run")
            again, cost = False, time.time() - START
            for attempt in range(3):
                if again or (attempt and ctx.left() < 1.5 * cost):
                    break
                try:
                    ctx2 = Ctx(prop, True)
                    module.check(ctx2)
                    again = bool(ctx2.rejections)
                except CheckError as e:
                    again = bool(ctx2.rejections)
                    log("the repeated run failed: %s" % str(e)[:300])
            if not again:
                raise CheckError("a hang was not repeated")
        known = ctx.known()
        bad = []
        for k, what in known:
            log("KNOWN-FINDING: property=%s %s" % (prop, what))
        for r in rejs:
            if signature(r) in [k for k, _ in known]:
                continue
            bad.append(r)
        ctx.evidence(len(bad))
        if bad:
            for i, r in enumerate(bad[:5]):
                p = ctx.save_replay(r, i)
                log("rejected by %s at event %d of an episode (%s): %s %s"
                    % (r.spec, r.index, r.episode.origin, json.dumps(r.event)[:600], r.note))
                log("VIOLATION property=%s replay=%s" % (prop, p))
            rc = 1
        else:
            log("property %s held: %d states, %d transitions, %d traces validated, %.1fs"
                % (prop, ctx.states, ctx.transitions, ctx.traces_ok, time.time() - ctx.t0))
            rc = 0
    except CheckError as e:
        log("CHECK ERROR property=%s: %s" % (prop, e))
        rc = 2
    except subprocess.TimeoutExpired as e:
        log("CHECK ERROR property=%s: %s" % (prop, e))
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(ctx.work, ignore_errors=True)
            shutil.rmtree(ctx.work + "-again", ignore_errors=True)
    return rc
