#!/usr/bin/env python3
"""dev helper: bug.py ID... : confirms planted bugs and runs the checks of their properties.

For each /verif/seeded/ID: the patch applies, touches original lines only, the repository still
builds and passes its tests with it, demo.sh succeeds without and fails with it; then runs the
check of the property (quick) on a patched scratch copy.  -c: only the check.  -d: only the demo.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
lock = threading.Lock()


def sh(cmd, cwd=None, env=None, timeout=1500):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout, capture_output=True, text=True, errors="replace")
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def copy():
    d = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    t = os.path.join(d, "repo")
    rc, out = sh("git clone -q --no-hardlinks %s %s" % (REPO, t))
    assert rc == 0, out
    return d, t


def one(b, mode):
    s = os.path.join(V, "seeded", b)
    meta = json.load(open(os.path.join(s, "meta.json")))
    out = [b, meta["property"]]
    d, t = copy()
    try:
        lay = os.path.join(d, "lay")
        shutil.copytree(s, lay)
        for f in os.listdir(lay):
            if f.endswith(".diff") or f == "meta.json":
                os.remove(os.path.join(lay, f))
        if mode != "c":
            rc, o = sh("bash %s/demo.sh" % lay, cwd=t, timeout=300)
            out.append("clean-demo=%d" % rc)
            if rc != 0:
                out.append(o[-1500:])
        rc, o = sh("git apply %s/patch.diff" % s, cwd=t)
        if rc != 0:
            return out + ["DOES NOT APPLY " + o]
        if mode != "c":
            rc, o = sh("bash %s/demo.sh" % lay, cwd=t, timeout=300)
            out.append("bug-demo=%d" % rc)
            out.append(" / ".join(o.strip().splitlines()[-2:])[:200])
        if mode == "a":
            with lock:
                try:
                    sh("git apply %s/patch.diff" % s, cwd=REPO)
                    rc, o = sh("bash %s/tools/t.sh" % V)
                    out.append("tests: " + o.strip()[-60:])
                finally:
                    sh("git checkout -- .", cwd=REPO)
        if mode != "d":
            e = dict(os.environ, VERIF_REPO=t, VERIF_TIER="quick", VERIF_SEED="1")
            rc, o = sh("python3 run.py %s quick" % meta["property"], cwd=V, env=e, timeout=1000)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            out.append("check=%d %s" % (rc, "CAUGHT" if rc == 1 and v else "MISSED"))
            if rc not in (0, 1):
                out.append(o[-800:])
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    mode = "a"
    if a and a[0] in ("-c", "-d"):
        mode = a.pop(0)[1]
    if not a:
        a = sorted(os.listdir(os.path.join(V, "seeded")))
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(one, b, mode) for b in a]
        for f in cf.as_completed(fs):
            print(" | ".join(f.result()), flush=True)


main()
