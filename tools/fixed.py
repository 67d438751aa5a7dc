#!/usr/bin/env python3
"""fixed.py ID TEXT: appends the last /repo commit to known-findings.txt"""
import subprocess, sys
h = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h"], text=True).strip()
open("/verif/known-findings.txt", "a").write("fixed: property=%s %s %s\n" % (sys.argv[1], h, sys.argv[2]))
