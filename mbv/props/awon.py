"""Shared by S01 and S02: scenarios for awonvm_vector."""
from ..core import Episode

CONST = 'CONSTANTS Vals = {}\nHole = "hole"\nMaxLen = 0\n'
LIBS = ["utils", "logger", "aio", "sched", "tpaio"]


def model(ctx):
    ctx.model("Awonvm", 'SPECIFICATION Spec\nINVARIANTS TypeOK Faithful ReadsRight SizeIsAppends\n'
              'PROPERTIES AppendOnly WriteOnce Durable\nCONSTRAINT Bound\n'
              'CONSTANTS Vals = {v1, v2}\nHole = Hole\nMaxLen = %d\n' % ctx.q(3, 4), "vector on disk")


def behaviours(ctx, depth, limit):
    return ctx.generate("AwonvmGen", 'SPECIFICATION GSpec\nCONSTRAINT Emit\nCONSTANTS Vals = {"v1", "v2"}\nHole = "hole"\n'
                        'MaxLen = 9\nDepth = %d\nWithDirect = TRUE\n' % depth, limit=limit)


def configs():
    return [{"type": "u64", "sched": "tp", "direct": 0}, {"type": "small", "sched": "tp", "direct": 0},
            {"type": "page", "sched": "tp", "direct": 1}, {"type": "page", "sched": "default", "direct": 1},
            {"type": "page", "sched": "aio", "direct": 0}, {"type": "page", "sched": "tp", "direct": 0}]
