#!/usr/bin/env python3
"""dev.py OUT HARNESS LIB... [+standin] [-Dx] [-Wl..]: builds one harness for debugging."""
import sys, shutil
sys.path.insert(0, "/verif")
from mbv import core
ctx = core.Ctx("dev")
a = sys.argv[3:]
exe = ctx.build(sys.argv[2], [x for x in a if x[0] not in "+-"], standin="+standin" in a,
                defines=[x[2:] for x in a if x.startswith("-D")], ldflags=[x for x in a if x.startswith("-Wl") or x.startswith("-l")])
shutil.copy(exe, sys.argv[1])
shutil.rmtree(ctx.work)
