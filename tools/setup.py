#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks use are present, and that every spec parses."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
for t in (["g++", "--version"], ["java", "-version"]):
    subprocess.run(t, check=True, capture_output=True)
bad = 0
specs = [f for f in sorted(os.listdir(V + "/spec")) if f.endswith(".tla")]
r = subprocess.run(["java", "-cp", CP, "tla2sany.SANY"] + specs, cwd=V + "/spec", capture_output=True, text=True)
if r.returncode != 0 or "*** Errors" in r.stdout or "Fatal error" in r.stdout:
    print(r.stdout[-3000:])
    bad = 1
print("setup: %d specification modules parse" % len(specs) if not bad else "setup failed")
sys.exit(bad)
