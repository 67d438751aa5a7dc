"""What the checks of the RPC services share."""
import os

from ..core import REPO, VERIF
from ..protogen import generate

LIBS = ["logger", "rocksdb", "utils", "sophos_common", "sophos_client", "sophos_server", "diana_common", "sophos_crun",
        "sophos_srun", "diana_crun", "diana_srun"]
CONST = "CONSTANTS Keys = {}\nDocs = {}\nMaxIns = 0\nMaxRaw = 0\nWaits = TRUE\nOnce = TRUE\nClean = TRUE\nSkips = TRUE\n"
MC = ("SPECIFICATION Spec\nINVARIANTS Exact Between Owned Whole\nPROPERTY OnlyOnce\nCONSTANTS Keys = {%s}\nDocs = {1, 2}\n"
      "MaxIns = %d\nMaxRaw = %d\nWaits = %s\nOnce = %s\nClean = %s\nSkips = %s\n")
GRPC = ("gRPC is not installed: client and server run in one process over a stand-in of its synchronous API (value messages, "
        "bounded streams, a handler thread per stream, exceptions of a handler turned into a status), with messages generated "
        "from the repository's .proto files; the network, and what the real gRPC does under failures, are not covered")


def build(ctx, shake=False, asan=False):
    gen = ctx.path("gen")
    for p in ("diana", "sophos"):
        generate(os.path.join(REPO, "lib/protos/%s.proto" % p), os.path.join(gen, "protos/%s.grpc.pb.h" % p))
    flags = ["-I" + os.path.join(VERIF, "standin/grpc"), "-I" + gen, "-I" + os.path.join(REPO, "lib/include/sse/runners")]
    if shake:
        return ctx.build("runner.cpp", LIBS, standin=True, ldflags=["-rdynamic"], defines=["SHAKE"], opt="-O0", name="runnershake",
                         flags=flags + ["-finstrument-functions"])
    if asan:
        return ctx.build("runner.cpp", LIBS, standin=True, ldflags=["-rdynamic"], name="runnerasan",
                         flags=flags + ["-fsanitize=address", "-fno-omit-frame-pointer"])
    return ctx.build("runner.cpp", LIBS, standin=True, ldflags=["-rdynamic"], flags=flags)


def models(ctx):
    ctx.models_parallel([
        (("Service", MC % ('"a"', ctx.q(3, 4), 2, "TRUE", "TRUE", "TRUE", "TRUE"), "one keyword"), {}),
        (("Service", MC % ('"a", "b"', ctx.q(2, 3), 1, "TRUE", "TRUE", "TRUE", "TRUE"), "two keywords"), {})])
