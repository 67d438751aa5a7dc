"""C03: Oceanus."""
from .cuckoo import run


def check(ctx):
    run(ctx, ["oceanus", "oce512", "oce512"])
