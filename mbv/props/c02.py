"""C02: the cuckoo hash table on disk."""
from .cuckoo import run


def check(ctx):
    run(ctx, ["one", "one", "mid", "bare", "big"])
